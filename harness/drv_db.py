"""The result store: generated histories of one writing connection, watched through a second one (C23), for TDB."""
from lib import *
import json, shutil, signal, sqlite3
from StateModel import Gaussian
from ExpectationPropagation.Nodes import build_nodes
from Utils import Database as DBm
import Experiments.EP_Sweep_BearingsOnly as BO


def canon(x):
    """a string for a value with its type, element type and shape"""
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            return "object array"
        return "ndarray %s %s %s" % (x.dtype.str, list(x.shape), np.ascontiguousarray(x).tobytes().hex())
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, "; ".join(canon(y) for y in x))
    if isinstance(x, dict):
        return "dict{%s}" % "; ".join("%s: %s" % (canon(k), canon(x[k])) for k in x)
    if isinstance(x, Gaussian):
        return "Gaussian(%s, %s)" % (canon(np.asarray(x.mean)), canon(np.asarray(x.cov)))
    if type(x).__name__ == "Node":
        return "Node(%s, %s)" % (x.index, ", ".join(canon(getattr(x, a)) for a in ("marginal", "forward_factor", "measurement_factor", "back_factor")))
    if isinstance(x, float):
        return "float " + float(x).hex()
    return "%s %r" % (type(x).__name__, x)


def real(x):
    return canon(float(x))


def score(x):
    """a stored score; sqlite keeps an undefined one (NaN) as NULL"""
    return canon(float("nan")) if x is None else canon(x)


def arrays(rng):
    b = np.arange(24, dtype=float).reshape(4, 6) * 0.1
    return [np.array([1.5]), np.array([[1.5]]), np.array([[0.1, 0.2]]), np.array([[0.1], [0.2]]), np.array([0.1, 0.2]), np.array(3.25), np.array([]),
            np.zeros((0, 3)), np.array([1, 2, 3]), np.array([1, 2, 3], dtype=np.int32), np.array([1, 2, 3], dtype=np.uint8), np.array([True, False]),
            np.array([1 + 2j, -0.5j]), np.array([1.5, 2.5], dtype=">f8"), np.array([0.1, 0.2], dtype=np.float32), np.asfortranarray(b), b.T, b[::2, 1::3], b[1],
            np.array([np.nan, np.inf, -np.inf, -0.0, 5e-324, 1e308]), np.array(["ab", "c"]), rng.r.randn(3, 2, 2), rng.r.randn(1, 40), np.float64(2.5) * np.ones((1, 1)),
            np.array([[0.1 + 0.2]]), np.array([[0.3]]), np.frombuffer(bytes(range(16)), dtype=np.uint8), np.array([b"\x00x", b"y"]), np.eye(5), np.array([2**62 + 1])]


def lists(rng):
    return [[], [1.5, 2.5], [[1, 2], [3.0, None], []], [np.array([1.0, 2.0]), np.eye(2)], [np.float64(0.1), np.array(1)], ["a'b", "\u00e9", b"\x00\x01"], [True, 1, 1.0, None],
            [Gaussian(np.array([0.5, -1.0]), np.array([[2.0, 0.5], [0.5, 1.0]])), Gaussian(np.zeros(1), np.eye(1))], [(1, 2), {"k": [1]}], list(range(300)),
            build_nodes(3, 2), [np.array([["x"]])], [[[[]]]], [float("nan"), float("inf"), -0.0], [2**80, -1]]


SEEDS = [[0, 7, -4], [101, 201, 301], [2**40, 1, 2]]
KEYS = [("UT", 1, 1, 0.3, 1.0), ("UT", 1, 1, 0.1 + 0.2, 1.0), ("TT", 1, 1, 0.3, 1.0), ("UT", 1, 2, 0.3, 1.0), ("UT", 2, 1, 0.3, 1.0), ("UT", 1, 1, 0.3, 0.8), ("ut", 1, 1, 0.3, 1.0),
        ("UT", 1, 1, 1.0, 1.0), ("MCT'; --", 1, 1, 0.3, 1.0), ("UT", 1, 50, 35 / 127, 35 / 127), ("UT", 1, 1, 1.0, 0.8), ("UT", 11, 1, 0.3, 1.0)]
OTHER = [["TT", "ut", "MCT'; --"], [2, 11, -1], [2, 50, 10, 11], [0.1 + 0.2, 0.25, 35 / 127, 1.0], [0.8, 35 / 127, 0.1 + 0.2, 1.0 - 2**-53]]


def keys(rng):
    """a key and three that differ from it in one column each, or four unrelated ones"""
    if rng.r.rand() < 0.2:
        return [KEYS[j] for j in rng.r.permutation(len(KEYS))[:4]]
    base = rng.choice([KEYS[0], KEYS[7], KEYS[9]])
    out = [base]
    for c in rng.r.permutation(5)[:3]:
        out.append(tuple(rng.choice([v for v in OTHER[c] if v != base[c]]) if i == c else x for i, x in enumerate(base)))
    return out


QUANT = ["position", "velocity", "angle"]
COLS = {"D": "Seed, t, X, Y", "E": "Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance",
        "Q": "Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL", "R": "k, a, b, c"}
NKEY = {"D": 2, "E": 5, "Q": 6, "R": 1}


def key(x):
    return x if isinstance(x, str) else (q(x) if isinstance(x, (int, float)) else canon(x))


def look(con, tabs):
    out = []
    for t in tabs:
        try:
            cur = con.execute("SELECT %s FROM %s" % (COLS[t], TNAME[t]))
            rs = cur.fetchall()
            cur.close()
            out.append({"made": True, "rows": [{"k": [key(x) for x in r[:NKEY[t]]], "v": " | ".join(score(x) if t in "EQ" and i < 2 else canon(x) for i, x in enumerate(r[NKEY[t]:]))} for r in rs]})
        except Exception as x:      # noqa
            if "no such table" in str(x):
                out.append({"made": False, "rows": []})
            else:
                out.append({"made": True, "rows": [{"k": ["unreadable"], "v": type(x).__name__ + str(x)[:80]}]})
    return out


TNAME = {"D": "UNGM_SIM", "E": "UNGM_EXP", "Q": "BOTT_EXP", "R": "RAW"}


class Life:
    """one process with one writing connection"""
    def __init__(self, path, named, tabs, reader):
        self.path, self.named, self.tabs, self.reader = path, named, tabs, reader
        self.con = None

    def connect(self):
        if self.named:
            self.con = DBm.open_database(self.path)
        else:
            os.chdir(os.path.dirname(self.path))
            self.con = DBm.open_database()
        self.db = self.con.cursor() if self.reader == "cursor" else self.con

    def see(self, ev):
        if self.con is not None:
            ev["w"] = look(self.con, self.tabs)
        ev["r"] = fresh(self.path, self.tabs)
        return ev

    def do(self, op, plan):
        if self.con is None:
            self.connect()
        k = op[0]
        if k == "mk":
            t = op[1]
            if t == "D":
                DBm.create_dynamics_table(self.db, TNAME[t])
            elif t == "E":
                DBm.create_experiment_table(self.db, TNAME[t])
            elif t == "Q":
                BO.create_experiment_table(self.db, TNAME[t])
            else:
                self.db.execute("CREATE TABLE IF NOT EXISTS RAW (k TEXT PRIMARY KEY, a NParray, b Nodes, c pickle)")
        elif k == "dyn":
            DBm.insert_dynamics_data(self.db, TNAME["D"], plan["data"], plan["seed"])
        elif k == "exp":
            if op[1] == "E":
                DBm.insert_experiment_data(self.db, TNAME["E"], plan["data"])
            else:
                BO.insert_experiment_data(self.db, TNAME["Q"], plan["data"])
        elif k == "raw":
            self.db.execute("INSERT OR REPLACE INTO RAW (k, a, b, c) VALUES (?, ?, ?, ?)", plan["data"])
        elif k == "commit":
            self.con.commit()


def fresh(path, tabs):
    c = DBm.open_database(path)
    try:
        return look(c, tabs)
    finally:
        c.close()


def num(rng, x):
    """the same number in one of its types"""
    if isinstance(x, float) and rng.r.rand() < 0.3:
        return np.float64(x)
    if isinstance(x, (int, float)) and float(x) == int(x) and rng.r.rand() < 0.5:
        return rng.choice([int(x), float(x)])
    return x


def plan(op, rng, m):
    """concrete values of an abstract operation, and its event"""
    if op[0] == "mk":
        return {}, {"op": "mk", "t": op[1]}
    if op[0] == "dyn":
        vs = [m["vals"][v - 1] for v in op[3]]
        seed = m["seeds"][op[2] - 1]
        return ({"seed": seed, "data": rng.choice([list, tuple])(vs)},
                {"op": "dyn", "t": "D", "seed": q(seed), "vals": [" | ".join(canon(x) for x in v) for v in vs]})
    if op[0] == "raw":
        return {"data": (op[2],) + op[3]}, {"op": "exp", "t": "R", "key": [op[2]], "val": " | ".join(canon(x) for x in op[3])}
    if op[0] == "exp":
        k = m["keysQ" if op[1] == "Q" else "keys"][op[2] - 1]
        v = m["res"][op[3] - 1]
        if op[1] == "E":
            names = ("Transform", "Seed", "Iter", "Power", "Damping", "RMSE", "NLL", "Mean", "Variance")
            vals = (k[0],) + tuple(num(rng, x) for x in k[1:]) + v
            return {"data": dict(zip(names, vals))}, {"op": "exp", "t": "E", "key": [key(x) for x in k], "val": " | ".join([real(v[0]), real(v[1]), canon(v[2]), canon(v[3])])}
        k = (k[0], QUANT[m["quant"][op[2] - 1]]) + k[1:]
        names = ("Transform", "Quantity", "Seed", "Iter", "Power", "Damping", "RMSE", "NLL")
        vals = k[:2] + tuple(num(rng, x) for x in k[2:]) + v[:2]
        return {"data": dict(zip(names, vals))}, {"op": "exp", "t": "Q", "key": [key(x) for x in k], "val": " | ".join([real(v[0]), real(v[1])])}
    if op[0] == "crash":
        return {}, {"op": "crash", "how": op[1]}
    return {}, {"op": op[0]}


def history(ops, rng, name, tabs, m):
    root = os.path.join(os.getcwd(), name)
    os.makedirs(root)
    path = os.path.join(root, "temp.db")
    named = rng.r.rand() < 0.7
    reader = rng.choice(["cursor", "connection"])
    plans = [plan(op, rng, m) for op in ops]
    evs, i = [], 0
    while i < len(ops):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                out = os.fdopen(wr, "w")
                life = Life(path, named, tabs, reader)
                for j in range(i, len(ops)):
                    ev = dict(plans[j][1], exc="")
                    if ops[j][0] == "crash":
                        ev["next"] = path
                        how = ops[j][1]
                        if how == "close" and life.con is not None:
                            life.con.close()
                        if how == "copy" and life.con is not None:
                            other = os.path.join(root, "c%d" % j)
                            os.makedirs(other)
                            for f in os.listdir(os.path.dirname(path)):
                                if f.startswith("temp.db"):
                                    shutil.copy(os.path.join(os.path.dirname(path), f), other)
                            ev["next"] = os.path.join(other, "temp.db")
                        out.write(json.dumps(ev) + "\n")
                        out.flush()
                        os.kill(os.getpid(), signal.SIGKILL)
                    try:
                        life.do(ops[j], plans[j][0])
                    except Exception as x:      # noqa
                        ev["exc"] = type(x).__name__
                    out.write(json.dumps(life.see(ev)) + "\n")
                out.flush()
            finally:
                os.kill(os.getpid(), signal.SIGKILL)
        os.close(wr)
        with os.fdopen(rd) as f:
            got = [json.loads(l) for l in f if l.endswith("\n")]
        os.waitpid(pid, 0)
        for ev in got:
            if ev["op"] == "crash":
                path = ev.pop("next")
                ev["r"] = fresh(path, tabs)
            evs.append(ev)
        if not got:
            evs.append({"op": "open", "exc": "the process died", "r": [{"made": False, "rows": []} for _ in tabs]})
            break
        i += len(got)
    shutil.rmtree(root)
    return {"name": name, "tabs": tabs, "ev": evs}


def fns(prop, shard, nshards, seed, tier, gen):
    runs = []
    hs, seen = [], set()
    for h in json.load(open(os.path.join(gen, "store.json"))):
        k = json.dumps(h[:-3])
        if k not in seen:
            seen.add(k)
            hs.append(h)
    random.Random(seed).shuffle(hs)
    hs = hs[:80 if tier == "quick" else 1200]
    for i, h in my(list(enumerate(hs)), shard, nshards):
        rng = Rng(seed * 7919 + i)
        ars, ls = arrays(rng), lists(rng)
        ks = keys(rng)
        quant = [0, 0, 0, 0]
        if rng.r.rand() < 0.5:                # two keys that differ in the quantity only
            a, b = rng.r.permutation(4)[:2]
            quant[b] = int(rng.choice([1, 2]))
            m2 = list(ks)
            m2[b] = m2[a]
        else:
            m2 = ks
        m = {"quant": quant, "keysQ": m2, "seeds": rng.choice(SEEDS), "keys": ks,
             "vals": [(rng.choice(ars), rng.choice(ars)) for _ in range(6)],
             "res": [(rng.choice([0.5, 1, np.float64(2.25), 1e-300, 0.1 + 0.2, float("nan"), float("inf")]), rng.choice([-3.5, 0, np.float64(0.1), float("nan"), -float("inf")]), rng.choice(ls), rng.choice(ls)) for _ in range(6)]}
        runs.append(history(h, rng, "h%d" % i, ["D", "E", "Q"], m))
    # every kind of value through every converter, across a reopening
    rng = Rng(seed)
    ars, ls = arrays(rng), lists(rng)
    for i in my(range(len(ars)), shard, nshards):
        ops = [["mk", "R"], ["raw", "R", "x", (ars[i], ls[i % len(ls)], ls[(i * 7 + 3) % len(ls)])], ["raw", "R", "y", (ars[(i + 1) % len(ars)], ls[(i + 1) % len(ls)], [])],
               ["commit"], ["crash", rng.choice(["kill", "close", "copy"])], ["open"], ["mk", "R"], ["raw", "R", "x", (ars[i], [i], [])], ["commit"]]
        runs.append(history(ops, rng, "raw%d" % i, ["R"], None))
    return {"TDB": {"cfg": "Trace.cfg", "chunk": 40, "runs": runs}}


if __name__ == "__main__":
    main(fns)
