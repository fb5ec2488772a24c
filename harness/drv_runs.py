"""Runs of ep_iterations that finish or are killed at planned points (C24), for TRuns."""
from models import *
import json, shutil, signal, sqlite3
from StateModel import Gaussian
from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from ExpectationPropagation.Iterations import ep_iterations, ep_fwd_back_updates
from MomentMatching.Estimator import Estimator
from MomentMatching import UnscentedTransform, TaylorTransform
from Utils import Database as DBm
import Experiments.EP_Sweep_BearingsOnly as BO
UPD = {"fwd": "fwd_update", "meas": "meas_update", "back": "back_update"}
COLS = {1: ["Transform", "Seed", "Iter", "Power", "Damping"], 3: ["Transform", "Quantity", "Seed", "Iter", "Power", "Damping"]}
QUANTS = ["position", "velocity", "angle"]


class Boom(BaseException):
    """the process is about to die"""


def watch(hook):
    """connection and cursor classes that report statements that write, and commits"""
    class Cursor(sqlite3.Cursor):
        def execute(self, sql, *a):
            w = sql.lstrip()[:6].upper() in ("INSERT", "REPLAC", "UPDATE", "DELETE")
            if w:
                hook("stmt")
            return super().execute(sql, *a)

        def executemany(self, sql, *a):
            hook("stmt")
            return super().executemany(sql, *a)

    class Connection(sqlite3.Connection):
        def cursor(self, *a, **k):
            return super().cursor(Cursor)

        def execute(self, sql, *a):
            return self.cursor().execute(sql, *a)

        def commit(self):
            hook("commit")
            super().commit()
            hook("committed")
    return Connection


def key(x):
    return x if isinstance(x, str) else q(x)


def rows_of(con, table, r):
    cols = COLS[r] + ["RMSE", "NLL"] + (["Mean", "Variance"] if r == 1 else [])
    cur = con.execute("SELECT %s FROM %s" % (", ".join(cols), table))
    rs = cur.fetchall()
    cur.close()
    n = len(COLS[r])
    return [{"k": [key(x) for x in row[:n]], "rm": q(row[n]), "nl": q(row[n + 1])} for row in rs]


def die(how):
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    raise Boom()


def play(rng, plan, name, prop_):
    N, iters, r, truth, at = (plan[k] for k in ("n", "iters", "r", "truth", "at"))
    path = os.path.join(os.getcwd(), name + ".db")
    table = rng.choice(["UNGM_EXP", "BOTT_EXP", "X1"])
    n = 5 if r == 3 else rng.choice([1, 1, 2, 3])
    m = rng.choice([1, 2])
    df, dh = poly(rng, n, n, 0.05, True, lin=0.5), poly(rng, n, m, 0.1)
    flag = {"mid": False}
    f0, h0 = fn(df), fn(dh)

    def f(x, *a, **k):
        if flag["mid"]:
            die(flag["how"])
        return f0(x, *a, **k)

    def h(x, *a, **k):
        if flag["mid"]:
            die(flag["how"])
        return h0(x, *a, **k)
    system = DynamicSystemModel(n, m, f, h, GaussianNoise(n, cov=rng.spd(n)), GaussianNoise(m, cov=rng.spd(m)), Gaussian(rng.vec(n), rng.spd(n)), dt=1)
    ys = [rng.vec(m) for _ in range(N)]
    if rng.p.random() < .25:
        ys[rng.p.randrange(N)] = np.zeros(m)
    xs = [rng.vec(n) for _ in range(N)]
    xt = rng.choice([lambda: [x.reshape(1, n) for x in xs], lambda: tuple(x.reshape(1, n) for x in xs), lambda: np.array(xs).reshape(N, 1, n)]
                    + ([lambda: xs, lambda: np.array(xs)] if r == 1 else []))() if truth else None
    power, damping = rng.choice([1.0, 1, 0.8, 0.5]), rng.choice([1.0, 0.7, 35 / 127])
    tr = rng.choice([lambda: TaylorTransform(dim=n), lambda: UnscentedTransform(dim=n)])()
    est = Estimator(trans_map=tr, meas_map=tr, trans_noise=system.transition_noise.cov, meas_noise=system.measurement_noise.cov, power=power, damping=damping)
    nodes = node_system(node_estimator(build_nodes(N, n), est), system, ys)
    if rng.r.rand() < 0.3:
        ep_fwd_back_updates(nodes)
    iter0 = rng.choice([0, 0, 1, 7, 2.0])
    seed = rng.choice([0, 101, 7])
    base_key = {"Transform": rng.choice(["UT", "TT"]), "Seed": seed, "Iter": iter0, "Power": power, "Damping": damping}
    if r == 1:
        exp = DBm.Exp_Data(RMSE=0.0, NLL=0.0, Mean=0.0, Variance=0.0, Nodes=[], **base_key)
    else:
        exp = BO.Exp_Data(Quantity=None, RMSE=0.0, NLL=0.0, **base_key)
    # what is in the table already: other settings, and older results of the same settings
    con = DBm.open_database(path)
    (DBm if r == 1 else BO).create_experiment_table(con, table)
    it = lambda: iter0 + rng.p.randint(1, max(1, iters))
    old = [{kk: v} for kk, v in rng.choice([[], [("Seed", seed + 1)], [("Iter", iter0 + 1), ("Power", 0.25)], [("Iter", iter0 + 2), ("Iter", iter0 + 9)], [("Transform", "MCT"), ("Iter", iter0)]])]
    # results of runs that differ from this one in a single setting
    old += rng.p.sample([{"Transform": "MCT", "Iter": it()}, {"Seed": seed + 1, "Iter": it()}, {"Power": power * 0.97, "Iter": it()}, {"Damping": damping * 0.93, "Iter": it()}], rng.choice([0, 1, 2, 4]))
    for d2 in old:
        e2 = exp._replace(**d2, RMSE=11.5, NLL=-2.25)
        if r == 1:
            d = e2._replace(Mean=[], Variance=[])._asdict()
            del d["Nodes"]
            DBm.insert_experiment_data(con, table, d)
        else:
            BO.insert_experiment_data(con, table, e2._replace(Quantity=rng.choice(QUANTS))._asdict())
    con.commit()
    con.close()
    base = read(path, table, r)
    how = rng.choice(["kill", "exc"])
    mid = rng.choice([True, False])
    quiet = rng.choice([True, False])
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            out = os.fdopen(wr, "w")
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            reader = DBm.open_database(path)
            c = {"k": 0, "j": 0, "q": 0}

            def say(**ev):
                out.write(json.dumps(ev) + "\n")
                out.flush()

            def dur():
                return rows_of(reader, table, r)

            def hook(what):
                if what == "committed":
                    say(op="committed", dur=dur())
                    return
                stage = "log" if what == "stmt" else "commit"
                say(op="stmt", dur=dur())
                if at == [stage, c["k"], c["q"]]:
                    die(how)
                if what == "stmt":
                    c["q"] += 1

            def rec(i, k, g):
                def u(*a, **kw):
                    say(op="upd", i=i, k=k, dur=dur())
                    c["q"] = 0
                    if at == ["upd", c["k"], c["j"]]:
                        if mid and not (k == "back" and i == N):
                            flag.update(mid=True, how=how)
                        else:
                            die(how)
                    g(*a, **kw)
                    c["j"] += 1
                    if c["j"] == 3 * N:
                        c["j"] = 0
                        c["k"] += 1
                        say(op="swept", marg=[mom(x.marginal) for x in nodes])
                return u
            for i, x in enumerate(nodes):
                for k in UPD:
                    setattr(x, UPD[k], rec(i + 1, k, getattr(x, UPD[k])))
            con = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES, factory=watch(hook))
            run = ep_iterations if r == 1 else BO.ep_iterations
            try:
                _, exc = guard(run, nodes, max_iter=iters, x_true=xt, conn=con, exp_data=exp, table_name=table, print_result=not quiet)
                con.close()
                say(op="ret", exc=exc, dur=dur())
            except Boom:
                if rng.r.rand() < 0.5:
                    con.close()
        finally:
            os.kill(os.getpid(), signal.SIGKILL)
    os.close(wr)
    with os.fdopen(rd) as fd:
        ev = [json.loads(l) for l in fd if l.endswith("\n")]
    os.waitpid(pid, 0)
    if not ev or ev[-1]["op"] != "ret":
        ev.append({"op": "died", "dur": read(path, table, r)})
    os.unlink(path)
    kv = [key(base_key.get(c, "")) for c in COLS[r]]
    return {"name": name, "tag": prop_ + ".", "N": N, "iters": iters, "r": r, "truth": truth, "xs": [V(x) for x in xs], "base": base, "key": kv, "iter0": q(iter0),
            "iterAt": COLS[r].index("Iter") + 1, "quantAt": COLS[r].index("Quantity") + 1 if r == 3 else 0, "quants": QUANTS, "at": at, "ev": ev}


def read(path, table, r):
    con = DBm.open_database(path)
    try:
        return rows_of(con, table, r)
    finally:
        con.close()


def fns(prop, shard, nshards, seed, tier, gen):
    plans = json.load(open(os.path.join(gen, "runs.json")))
    random.Random(seed).shuffle(plans)
    if prop == "C27":
        plans = [p for p in plans if p["r"] == 3 and p["truth"]]
    plans.sort(key=lambda p: p["at"][0] != "done")
    if tier == "quick":
        plans = plans[:200] if prop == "C24" else plans[:40]
    else:
        plans = plans * 3
    return {"TRuns": {"cfg": "Trace.cfg", "chunk": 30, "runs": [play(Rng(seed * 7919 + i), p, "p%d" % i, prop) for i, p in my(list(enumerate(plans)), shard, nshards)]}}


if __name__ == "__main__":
    main(fns)
