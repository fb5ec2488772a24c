"""full_sweep run again and again on one database, completing or killed, for TSweep (C25)."""
from models import *
import itertools, re, signal, sqlite3
import drv_runs as R
from drv_runs import COLS, QUANTS, Boom, key, rows_of, die
from StateModel import Gaussian
from MomentMatching.Estimator import Estimator
from Systems import UniformNonlinearGrowthModel, BearingsOnlyTrackingTurn
from Utils import Database as DBm
import Experiments.EP_FullSweep as FS
import Experiments.EP_Sweep_BearingsOnly as BO


KIND = {"UnscentedTransform": "UT", "TaylorTransform": "TT", "MonteCarloTransform": "MCT"}


def logged_key(sql, params):
    """{column: value} of an INSERT, or None"""
    m = re.match(r"\s*(?:INSERT|REPLACE)\b.*?\bINTO\s+[\"'`\[]?(\w+)[\"'`\]]?\s*\(([^)]*)\)\s*VALUES\s*\(([^)]*)\)", sql, re.I | re.S)
    if not m:
        return None
    cols = [c.strip() for c in m.group(2).split(",")]
    vals = [v.strip() for v in m.group(3).split(",")]
    if isinstance(params, dict):
        if not all(v.startswith(":") for v in vals):
            return None
        params = [params.get(v[1:]) for v in vals]
    elif any(v != "?" for v in vals):
        return None
    return m.group(1), dict(zip(cols, params))


def watch(hook):
    class Cursor(sqlite3.Cursor):
        def execute(self, sql, *a):
            if sql.lstrip()[:6].upper() in ("INSERT", "REPLAC", "UPDATE", "DELETE"):
                hook("stmt", sql, a[0] if a else ())
            return super().execute(sql, *a)

        def executemany(self, sql, seq):
            for a in list(seq):
                self.execute(sql, a)
            return self

    class Connection(sqlite3.Connection):
        def cursor(self, *a, **k):
            return super().cursor(Cursor)

        def execute(self, sql, *a):
            return self.cursor().execute(sql, *a)

        def executemany(self, sql, *a):
            return self.cursor().executemany(sql, *a)

        def commit(self):
            hook("commit", "", ())
            super().commit()

        def __exit__(self, t, v, tb):
            if t is None:
                hook("commit", "", ())
            return super().__exit__(t, v, tb)
    return Connection


def dyn_of(con, table):
    cur = con.execute("SELECT Seed, t, X, Y FROM %s" % table)
    rs = cur.fetchall()
    cur.close()
    return [{"seed": key(s), "t": key(t), "x": V(x), "y": V(y)} for s, t, x, y in rs]


def grid(rng, bo):
    """four configurations, as ranges"""
    seeds = rng.p.sample([0, 3, 7, 101, 12345], 2)
    trans = ["TT", "UT"]
    powers = rng.choice([[1.0, 0.5], [1, 0.8], list(np.linspace(0.1, 1.0, 10)[[9, 6]]), np.linspace(0.5, 1.0, 2), [0.95, 0.9], [1.0, 0.996], [0.55, 0.6]])
    damps = rng.choice([[1.0, 0.8], [35 / 127, 1], [0.7, 0.9], [0.85, 0.8], [0.7, 0.7 + 1e-6], [0.999, 1.0]])
    w = rng.choice(["st", "sp", "tp", "pd", "sd", "td", "s", "p"])
    if w == "s":
        seeds = rng.p.sample([0, 3, 7, 101, 12345], 4)
    if w == "p":
        powers = rng.choice([np.linspace(0.1, 1.0, 4), np.linspace(0.4, 1.0, 25)[[20, 21, 22, 24]]])
    one = lambda x: list(x)[:1]
    if rng.p.random() < .5:
        trans = trans[::-1]
    return (seeds if "s" in w else one(seeds), trans if "t" in w else one(trans), powers if "p" in w else one(powers), damps if "d" in w else one(damps))


def play(rng, hist, name, bo, N):
    mod, table, dyn, r = (BO, "BOTT_EXP", "BOTT_SIM", 3) if bo else (FS, "UNGM_EXP", "UNGM_SIM", 1)
    make = BearingsOnlyTrackingTurn if bo else UniformNonlinearGrowthModel
    n = 5 if bo else 1
    path = os.path.join(os.getcwd(), name + ".db")
    con = DBm.open_database(path)
    DBm.create_dynamics_table(con, dyn)
    (BO if bo else DBm).create_experiment_table(con, table)
    seeds, trans, powers, damps = grid(rng, bo)
    cfgs, data = [], []
    system = make()
    for sd in seeds:
        np.random.seed(sd)
        xy = make().simulate(N)
        data.append({"seed": key(sd), "xs": [V(x) for x, _ in xy], "ys": [V(y) for _, y in xy]})
    ut = lambda k: {"k": "UT", "alpha": "1", "beta": "2", "kappa": k}
    for (si, sd), t, p, d in itertools.product(enumerate(seeds), trans, powers, damps):
        base = {"Transform": t, "Quantity": "", "Seed": sd, "Iter": 0, "Power": float(p), "Damping": float(d)}
        cfgs.append({"key": [key(base[c]) for c in COLS[r]], "s": si + 1, "tr": ut("3") if t == "UT" else {"k": t}, "mr": ut("2") if t == "UT" else {"k": t}, "p": q(float(p)), "d": q(float(d))})
    # results of others
    for k in range(rng.choice([0, 1, 3])):
        o = {"Transform": rng.choice(["TT", "UT", "MCT", "ut"]), "Quantity": rng.choice(QUANTS), "Seed": rng.choice([seeds[0], 55]), "Iter": rng.choice([1, 2, 3]), "Power": 0.37 + k, "Damping": rng.choice([1.0, 0.8]), "RMSE": 5.0, "NLL": 6.5}
        cols = COLS[r] + ["RMSE", "NLL"]
        con.execute("INSERT OR IGNORE INTO %s (%s) VALUES (%s)" % (table, ", ".join(cols), ", ".join("?" * len(cols))), tuple(o[c] for c in cols))
    con.commit()
    con.close()
    index = {tuple(c["key"][j] for j, x in enumerate(COLS[r]) if x not in ("Iter", "Quantity")): i + 1 for i, c in enumerate(cfgs)}
    ev = []
    for k, h in enumerate(hist):
        con = DBm.open_database(path)
        rs = rows_of(con, table, r)
        con.execute("UPDATE %s SET RMSE = 1000 + rowid + %d" % (table, 500 * k))
        con.commit()
        before = rows_of(con, table, r)
        con.close()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                child(rng, mod, make(), path, table, dyn, n, r, N, h, (seeds, trans, powers, damps), index, os.fdopen(wr, "w"))
            finally:
                os.kill(os.getpid(), signal.SIGKILL)
        os.close(wr)
        with os.fdopen(rd) as fd:
            got = [json.loads(l) for l in fd if l.endswith("\n")]
        os.waitpid(pid, 0)
        end = [g for g in got if g["op"] == "end"]
        logged, bad = [], [0, 0]
        for g in got:
            if g["op"] == "logged" and g["ci"] not in logged:
                logged.append(g["ci"])
            if g["op"] == "bad":
                bad = g["ci"]
            if g["op"] == "open":                       # the statement or commit of this sweep is where it dies
                logged = [x for x in logged if x != g["ci"]]
        con = DBm.open_database(path)
        ev.append({"op": "sweep", "ni": h["ni"], "over": h["over"], "bad": bad, "died": not end, "exc": end[0]["exc"] if end else "", "logged": logged,
                   "before": before, "after": rows_of(con, table, r), "dyn": dyn_of(con, dyn)})
        con.close()
    os.unlink(path)
    if os.path.exists(path + "-journal"):
        os.unlink(path + "-journal")
    if bo:
        f, hh = {"k": "bott_f", "dt": "1"}, desc({"k": "bott_h", "sx": 1e4 * np.array([-2., 2, -2, 2]), "sy": 1e4 * np.array([2., 2, -2, -2])})
    else:
        f, hh = {"k": "ungm_f"}, {"k": "ungm_h"}
    return {"name": name, "md": {"f": f, "h": hh, "Q": M(system.transition_noise.cov), "R": M(system.measurement_noise.cov)}, "prior": mom(system.init_state), "dt": q(system.dt),
            "data": data, "cfgs": cfgs, "r": r, "maxit": max(h["ni"] for h in hist), "iterAt": COLS[r].index("Iter") + 1,
            "quantAt": COLS[r].index("Quantity") + 1 if r == 3 else 0, "quants": QUANTS, "ev": ev}


def child(rng, mod, system, path, table, dyn, n, r, N, h, ranges, index, out):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    how = rng.choice(["kill", "exc"])
    stage, g = h["crash"]
    at_eval, at_stmt = rng.choice([1, 1, 2, 5, 9]), rng.choice(range(1, r + 1))
    st = {"done": [], "evals": 0, "cur": None, "nst": 0, "cfg": None, "seed": -1}

    def say(**e):
        out.write(json.dumps(e) + "\n")
        out.flush()

    def hook(what, sql, params):
        if what == "commit":
            if stage == "commit" and len(st["done"]) == g:
                say(op="open", ci=st["done"][-1])
                die(how)
            return
        k = logged_key(sql, params)
        if not k or k[0] != table or not set(COLS[r]) <= set(k[1]):
            return
        c = index.get(tuple(key(k[1][x]) if isinstance(k[1][x], str) else q(k[1][x]) for x in COLS[r] if x not in ("Iter", "Quantity")))
        if c is None:
            return
        ci = [c, int(k[1]["Iter"])]
        if ci != st["cur"]:
            st["cur"], st["nst"] = ci, 0
            st["done"].append(ci)
            say(op="logged", ci=ci)
        st["nst"] += 1
        st["evals"] = 0
        if stage == "log" and len(st["done"]) == g and st["nst"] == at_stmt:
            say(op="open", ci=ci)
            die(how)

    def counted(f):
        def w(*a, **k):
            st["evals"] += 1
            if stage == "sweep" and len(st["done"]) == g - 1 and st["evals"] >= at_eval:
                die(how)
            return f(*a, **k)
        return w
    # the scoring of one iteration fails
    def config_of(est):
        v = {"Transform": KIND.get(type(est.trans_map).__name__, ""), "Seed": st["seed"], "Power": float(est.power), "Damping": float(est.damping)}
        return index.get(tuple(key(v[x]) if isinstance(v[x], str) else q(v[x]) for x in COLS[r] if x not in ("Iter", "Quantity")))

    def failing(f):
        def w(self, *a, **k):
            if st["cfg"] is not None and h["bad"] == [st["cfg"], (st["cur"][1] if st["cur"] and st["cur"][0] == st["cfg"] else 0) + 1]:
                say(op="bad", ci=h["bad"])
                st["cfg"] = None
                raise np.linalg.LinAlgError("planted")
            return f(self, *a, **k)
        return w

    def seeding(seed=None):
        st["seed"] = -1 if seed is None else int(seed)
        return sow(seed)

    def made(self, *a, **k):
        make_est(self, *a, **k)
        st["cfg"] = config_of(self)
    sow, make_est = np.random.seed, Estimator.__init__
    np.random.seed, Estimator.__init__ = seeding, made
    Gaussian.nll, Gaussian.squared_error = failing(Gaussian.nll), failing(Gaussian.squared_error)
    system.transition, system.measurement = counted(system.transition), counted(system.measurement)
    con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES, factory=watch(hook))
    config = FS.Config(con=con, system=system, timesteps=N, sys_dim=n, num_iter=h["ni"], dyn_table_name=dyn, exp_table_name=table)
    seeds, trans, powers, damps = ranges
    try:
        if h["over"]:
            _, exc = guard(mod.full_sweep, config, seeds, trans, powers, damps, True) if rng.p.random() < .5 else guard(mod.full_sweep, config, seeds, trans, powers, damps, override=True)
        else:
            _, exc = guard(mod.full_sweep, config, seeds, trans, powers, damps)
        con.close()
        say(op="end", exc=exc)
    except Boom:
        if rng.r.rand() < 0.5:
            con.close()


class Stop(Exception):
    pass


def cli(rng, i):
    """the command line passes its options on"""
    from click.testing import CliRunner
    ev = []
    for k in range(3):
        bo = rng.p.random() < .4
        mod = BO if bo else FS
        args, w = [], {"seeds": [101], "trans": ["TT", "UT", "MCT"], "ni": 50, "over": False, "dim": 5 if bo else 1, "steps": 50 if bo else 100}
        path = os.path.join(os.getcwd(), "cli%d-%d.db" % (i, k))
        args += [rng.choice(["-l", "--logdir"]), path]
        kind = "BOTT" if bo else "UNGM"
        if not bo and rng.p.random() < .7:
            kind = rng.choice(["UNGM", "BOT", "BOTT"])
            args += [rng.choice(["-d", "--dynamic-system"]), kind]
            w.update(dim={"UNGM": 1, "BOT": 4, "BOTT": 5}[kind], steps=100 if kind == "UNGM" else 50)
        if rng.p.random() < .7:
            w["seeds"] = rng.p.sample(range(1000), rng.choice([1, 2, 3]))
            for s in w["seeds"]:
                args += ["-s", str(s)]
        if rng.p.random() < .7:
            w["trans"] = rng.p.sample(["TT", "UT", "MCT"], rng.choice([1, 2, 3]))
            for s in w["trans"]:
                args += ["-t", s]
        if rng.p.random() < .7:
            w["ni"] = rng.choice([1, 3, 10])
            args += ["-i", str(w["ni"])]
        if rng.p.random() < .6:
            w["over"] = rng.choice([True, False])
            args += [rng.choice(["-o", "--override"]) if w["over"] else "--no-override"]
        got, old = [], mod.full_sweep

        def spy(config, seed_range, trans_types, power_range, damp_range, override=False):
            names = [x[0] for x in config.con.execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall()]
            got.append({"seeds": [int(x) for x in seed_range], "trans": list(trans_types), "ni": int(config.num_iter), "over": bool(override), "dim": int(config.sys_dim),
                        "steps": int(config.timesteps), "sys": type(config.system).__name__, "tables": [config.dyn_table_name, config.exp_table_name] if sorted(names) == sorted([config.dyn_table_name, config.exp_table_name]) else sorted(names),
                        "powers": V(np.array(list(power_range))), "damps": V(np.array(list(damp_range)))})
            raise Stop()
        mod.full_sweep = spy
        try:
            CliRunner().invoke(mod.main, args)
        finally:
            mod.full_sweep = old
        w.update(sys={"UNGM": "UniformNonlinearGrowthModel", "BOT": "BearingsOnlyTracking", "BOTT": "BearingsOnlyTrackingTurn"}[kind], tables=[kind + "_SIM", kind + "_EXP"],
                 powers=V(np.linspace(0.1, 1.0, num=10)), damps=V(np.array([1.0, 0.8])))
        ev.append({"op": "cli", "called": len(got) == 1, "got": got[0] if got else {}, "want": w, "args": " ".join(args[2:])})
        if os.path.exists(path):
            os.unlink(path)
    return {"name": "cli-%d" % i, "cfgs": [], "ev": ev}


def fns(prop, shard, nshards, seed, tier, gen):
    hs = json.load(open(os.path.join(gen, "sweeps.json")))
    seen, keep = set(), []
    for h in hs:
        s = json.dumps(h)
        if s not in seen:
            seen.add(s)
            keep.append(h)
    random.Random(seed).shuffle(keep)
    keep = keep[:64 if tier == "quick" else 900]
    runs = []
    for i, h in my(list(enumerate(keep)), shard, nshards):
        rng = Rng(seed * 7919 + i)
        bo = i % 8 == 5
        runs.append(play(rng, h, "h%d" % i, bo, 2 if bo else rng.choice([1, 2, 3, 4])))
    for i in my(range(8 if tier == "quick" else 60), shard, nshards):
        runs.append(cli(Rng(seed * 104729 + i), i))
    return {"TSweep": {"cfg": "Trace.cfg", "chunk": 12, "runs": runs}}


if __name__ == "__main__":
    main(fns)
