"""The batch experiment scripts, run as scripts in a scratch directory with stand-ins for the iterated smoother and the node updates (C30), for TBatch."""
from models import *
import runpy, signal, sqlite3
from StateModel import Gaussian
from Utils import Database as DBm
import Systems, Filters.KalmanFilter as KF, ExpectationPropagation.Nodes as ND, MomentMatching.Estimator as ES
from Systems import UniformNonlinearGrowthModel, BearingsOnlyTrackingTurn, L96
from drv_runs import Boom, die, key, QUANTS
from drv_sweep import watch
SCRIPTS = {"ungm": dict(file="IEKS_Sweep_UNGM.py", db="IEKS_ungm.db", table="UNGM_EXP", cols=["Seed", "Iter"], r=1),
           "bott": dict(file="IEKS_Sweep_BearingsOnly.py", db="IEKS_bott.db", table="BOTT_EXP", cols=["Quantity", "Seed", "Iter"], r=3),
           "l96": dict(file="IEKS_Sweep_L96.py", db="IEKS_L96.db", table="L96_EXP", cols=["dim", "Seed", "Iter"], r=1),
           "ep": dict(file="EP_Sweep_L96.py", db="L96_dim_experiment_3.db", table="L96_EXP", cols=["Transform", "Seed", "dim", "Iter", "Power", "Damping"], r=1)}
TNAME = {"UnscentedTransform": "UT", "TaylorTransform": "TT", "MonteCarloTransform": "MCT"}


def table_rows(path, sc):
    con = sqlite3.connect(path)
    try:
        if not con.execute("SELECT 1 FROM sqlite_master WHERE name = ?", (sc["table"],)).fetchall():
            return []
        cols = sc["cols"] + ["RMSE", "NLL"]
        rs = con.execute("SELECT %s FROM %s" % (", ".join(cols), sc["table"])).fetchall()
        n = len(sc["cols"])
        return [{"k": [key(x) for x in row[:n]], "rm": q(row[n]), "nl": q(row[n + 1])} for row in rs]
    finally:
        con.close()


def belief(rng, n):
    """mean and covariance with short numerals"""
    a = np.round(rng.r.randn(n) * 8) / 4
    s = np.diag(np.round(rng.r.uniform(1, 9, n)) / 4)
    for _ in range(2 if n > 1 else 0):
        i, j = rng.p.sample(range(n), 2)
        s[i, j] = s[j, i] = rng.choice([-1, 1]) / 16
    return a, s


def same_model(system):
    """what the system is: type, dimensions, noises, prior, dt"""
    return {"type": type(system).__name__, "Q": M(system.transition_noise.cov), "R": M(system.measurement_noise.cov), "m": V(system.init_state.mean), "S": M(system.init_state.cov), "dt": q(system.dt)}


_models = {}


def models(kind, dim):
    if (kind, dim) not in _models:
        s = {"ungm": UniformNonlinearGrowthModel, "bott": BearingsOnlyTrackingTurn}[kind]() if kind in ("ungm", "bott") else L96(dim=dim, init_cond_path="../log/L96_initial_condition_F_8_dim_%d.npy" % dim)
        _models[kind, dim] = s
    return _models[kind, dim]


def child(rng, kind, sc, stage, g, judge, out):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    path = os.path.join("..", "log", sc["db"])
    how = rng.choice(["kill", "exc"])
    at_stmt = rng.choice(range(1, sc["r"] + 1))
    st = {"u": 0, "nst": 0}

    def say(**e):
        out.write(json.dumps(e) + "\n")
        out.flush()

    def hook(what, sql, params):
        if st["u"] != g or not st["u"]:
            return
        if what == "commit":
            if stage == "commit":
                die(how)
            return
        st["nst"] += 1
        if stage == "log" and st["nst"] == at_stmt:
            die(how)

    def unit(dim, kv, ys, states, extra):
        """about to finish unit st['u'] + 1"""
        st["u"] += 1
        st["nst"] = 0
        if st["u"] > max(g, 10) + 25 and kind == "ep":     # where it was to die never came
            die(how)
        j = st["u"] in judge
        say(op="unit", dim=dim, key=kv, ys=ys, judge=j, states=states() if j else [], **extra)
    real = sqlite3.connect

    def connect(*a, **k):
        k["factory"] = watch(hook)
        return real(*a, **k)
    sqlite3.connect = connect
    beliefs = {}

    class Smoother(KF.IEKS):
        def __init__(self, system_model, sys_dim):
            super().__init__(system_model, sys_dim)
            self._seen = (system_model, sys_dim)

        def __call__(self, measurements, num_iter=5):
            sqlite3.connect = real
            rows_now = table_rows(path, sc)
            sqlite3.connect = connect
            say(op="dur", rows=rows_now)
            if stage == "work" and st["u"] + 1 == g:
                die(how)
            system, n = self._seen
            measurements = list(measurements)
            bs = [belief(rng, n) for _ in measurements]
            kv = {"Seed": "?", "Quantity": "#", "dim": q(n), "Iter": q(num_iter)}
            m = models(kind, n)
            unit(n, [kv[c] for c in sc["cols"]], [V(y) for y in measurements], lambda: [{"m": V(a), "S": M(b)} for a, b in bs], {"dataKnown": True, "made": same_model(system), "want": same_model(m)})
            return [Gaussian(a, b) for a, b in bs]
    KF.IEKS = Smoother
    # EP
    ups, box = [], {"n": 0, "sweep": 0, "nodes": None}

    def track(kind_, name):
        def upd(self, *a, **k):
            head = self
            while head.prev_node is not None:
                head = head.prev_node
            if box["nodes"] is not head:
                box.update(nodes=head, sweep=0)
                ups.clear()
            if not ups:
                if box["sweep"] < 2 or rng.p.random() < .05:
                    sqlite3.connect = real
                    say(op="dur", rows=table_rows(path, sc))
                    sqlite3.connect = connect
                if stage == "work" and st["u"] + 1 == g:
                    die(how)
            if stage == "work" and st["u"] + 1 == g and len(ups) > rng.choice([3, 70, 140]):
                die(how)
            ups.append([self.index + 1, kind_])
            if kind_ == "fwd":
                a_, b_ = belief(rng, self.dim) if (st["u"] + 1) in judge else (np.zeros(self.dim), np.eye(self.dim))
                self.marginal = Gaussian(a_, b_)
            if kind_ == "back" and head is self:
                chain, x = [], head
                while x is not None:
                    chain.append(x)
                    x = x.next_node
                j = (st["u"] + 1) in judge
                if j:
                    say(op="order", ups=list(ups), N=len(chain))
                ups.clear()
                proj = a[0] if a else next(iter(k.values()))
                est = getattr(proj, "__self__", None) or box["est"]
                kv = {"Seed": "?", "dim": q(self.dim), "Iter": q(box["sweep"]), "Power": q(float(self.power)), "Damping": q(float(self.damping)), "Transform": TNAME.get(type(est.trans_map).__name__, "")}
                box["sweep"] += 1
                m = models("l96", self.dim)
                want = {"Q": M(m.transition_noise.cov), "R": M(m.measurement_noise.cov), "t": kv["Transform"], "m": V(m.init_state.mean)}
                made = {"Q": M(est.transition_noise), "R": M(est.measurement_noise), "t": TNAME.get(type(est.meas_map).__name__, ""), "m": V(head.prior.mean)}
                if not j:
                    made, want = {}, {}
                unit(self.dim, [kv[c] for c in sc["cols"]], [V(x.meas) for x in chain] if j or box["sweep"] == 1 else beliefs["ys"],
                     lambda: [{"m": V(x.marginal.mean), "S": M(x.marginal.cov)} for x in chain], {"dataKnown": True, "made": made, "want": want})
                if box["sweep"] == 1 or j:
                    beliefs["ys"] = [V(x.meas) for x in chain]
        return upd
    if kind == "ep":
        make_est = ES.Estimator.__init__

        def made_est(self, *a, **k):
            make_est(self, *a, **k)
            box["est"] = self
        ES.Estimator.__init__ = made_est
        for k_, nm in (("fwd", "fwd_update"), ("meas", "meas_update"), ("back", "back_update")):
            setattr(ND.Node, nm, track(k_, nm))
    try:
        _, exc = guard(runpy.run_path, os.path.join(REPO, "Experiments", sc["file"]), run_name="__main__")
        say(op="ended", exc=exc)
    except Boom:
        pass


def play(rng, h, kind, name, tier):
    sc = SCRIPTS[kind]
    top = os.path.join(os.getcwd(), name)
    os.makedirs(os.path.join(top, "log"))
    os.makedirs(os.path.join(top, "Experiments"))
    old = os.getcwd()
    os.chdir(os.path.join(top, "Experiments"))
    try:
        path = os.path.join("..", "log", sc["db"])
        for d in (5, 10, 20, 40, 100, 200):
            if kind in ("l96", "ep"):
                np.save("../log/L96_initial_condition_F_8_dim_%d.npy" % d, np.round(rng.r.randn(d) * 16) / 8)
        _models.clear()
        nunits = {"ungm": 10, "bott": 10, "l96": 30}.get(kind)
        if kind != "ep" and rng.p.random() < .6:           # results that are there already
            con = DBm.open_database(path)
            runpy.run_path(os.path.join(REPO, "Experiments", sc["file"]), run_name="other")["create_experiment_table"](con.cursor(), table_name=sc["table"])
            for k in range(rng.choice([1, 4])):
                o = {"Seed": rng.choice([101, 201, 401, 7]), "Iter": rng.choice([50, 10, 3]), "dim": rng.choice([5, 10]), "Quantity": rng.choice(QUANTS), "RMSE": 5.0 + k, "NLL": 6.5}
                cols = sc["cols"] + ["RMSE", "NLL"]
                con.execute("INSERT OR IGNORE INTO %s (%s) VALUES (%s)" % (sc["table"], ", ".join(cols), ", ".join("?" * len(cols))), tuple(o[c] for c in cols))
            con.commit()
            con.close()
        ev, need, tot = [], {}, 0
        for stage, g in h:
            if kind == "ep":
                g = (g - 1) * rng.choice([1, 3, 7, 10]) + rng.choice([1, 2, 3, 31]) if stage != "no" else rng.choice([34, 62] if tier == "quick" else [34, 304, 335])
                stage = "work" if stage == "no" else stage
                judge = set(rng.p.sample(range(1, g + 1), min(g, 4))) | {g - 1, g}
            else:
                g = min(nunits, (g - 1) * rng.choice([1, 2, 6] if kind == "l96" else [1, 2]) + rng.choice([1, 2]))
                judge = set(rng.p.sample(range(1, nunits + 1), 3)) | {1, g, g - 1} if kind != "ungm" else set(range(1, 11))
            ev.append({"op": "begin", "rows": table_rows(path, sc) if os.path.exists(path) else []})
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    child(rng, kind, sc, stage, g, judge, os.fdopen(wr, "w"))
                finally:
                    os.kill(os.getpid(), signal.SIGKILL)
            os.close(wr)
            with os.fdopen(rd) as fd:
                got = [json.loads(l) for l in fd if l.endswith("\n")]
            os.waitpid(pid, 0)
            rng.p.random()
            end = [e for e in got if e["op"] == "ended"]
            ev += [e for e in got if e["op"] != "ended"]
            rows = table_rows(path, sc) if os.path.exists(path) else []
            ev.append({"op": "end", "died": not end, "exc": end[0]["exc"] if end else "", "rows": rows})
        # the data of every seed that is recorded
        si = sc["cols"].index("Seed")
        dims = sorted({(e["dim"], len(e["ys"])) for e in ev if e["op"] == "unit"})
        seeds = sorted({r["k"][si] for e in ev for r in e.get("rows", [])})
        sims = []
        for dim, N in dims:
            for sd in seeds:
                s = models("l96" if kind == "ep" else kind, dim)
                np.random.seed(int(sd))
                try:
                    xy = s.simulate(N)
                except Exception:
                    continue
                sims.append({"dim": dim, "seed": sd, "xs": [V(x) for x, _ in xy], "ys": [V(y) for _, y in xy]})
        # a unit no row of which was stored: its seed is not known
        used = {json.dumps(s["ys"]) for s in sims}
        for j, e in enumerate(ev):
            if e["op"] == "unit" and json.dumps(e["ys"]) not in used:
                last = not any(x["op"] == "unit" for x in ev[j + 1:next((k for k in range(j, len(ev)) if ev[k]["op"] == "end"), len(ev))])
                e["dataKnown"] = not last
        return {"name": "%s-%s" % (name, kind), "r": sc["r"], "quants": QUANTS, "sims": sims, "ev": ev}
    finally:
        os.chdir(old)
        import shutil
        shutil.rmtree(top)


def fns(prop, shard, nshards, seed, tier, gen):
    hs = json.load(open(os.path.join(gen, "batch.json")))
    keep, seen = {True: [], False: []}, set()
    for h in hs:
        s = json.dumps([h["keep"], h["runs"]])
        if s not in seen and all(x[0] != "clash" for x in h["runs"]):
            seen.add(s)
            keep[h["keep"]].append(h["runs"])
    r = random.Random(seed)
    for k in keep:
        keep[k].sort(key=json.dumps)
        r.shuffle(keep[k])
    plan = []
    t = 1 if tier == "quick" else 10
    for i in range(8 * t):
        plan.append(("ungm", keep[True]))
    for i in range(8 * t):
        plan.append(("bott", keep[True]))
    for i in range(4 * t):
        plan.append(("l96", keep[True]))
    for i in range(8 * t):
        plan.append(("ep", keep[False]))
    runs, cnt = [], {}
    for i, (k, hs_) in enumerate(plan):
        cnt[k] = cnt.get(k, -1) + 1
        if i % nshards == shard:
            runs.append(play(Rng(seed * 6007 + i), hs_[cnt[k] % len(hs_)] if k != "l96" else [["no", 0]] if cnt[k] % 3 == 0 else hs_[(cnt[k] + 100) % len(hs_)][:1], k, "h%d" % i, tier))
    return {"TBatch": {"cfg": "Trace.cfg", "chunk": 2, "runs": runs}}


if __name__ == "__main__":
    main(fns)
