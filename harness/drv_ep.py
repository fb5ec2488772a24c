"""Histories of node updates on real factor graphs, for TEP (C11, C12, C13)."""
from models import *
import hashlib
from StateModel import Gaussian
from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
from MomentMatching import TaylorTransform, UnscentedTransform
from MomentMatching.Estimator import Estimator
from ExpectationPropagation.Nodes import Node, build_nodes, node_estimator, node_system

NAMES = ("marginal", "forward_factor", "measurement_factor", "back_factor")
KEYS = ("marg", "fwd", "meas", "back")


def dg(g):
    d = nat(g)
    return hashlib.md5(json.dumps(d).encode()).hexdigest()[:12]


def digs(nodes):
    return [[dg(getattr(x, a)) for a in NAMES] for x in nodes]


def beliefs(node):
    return {k: nat(getattr(node, a)) for k, a in zip(KEYS, NAMES)}


class Fail(Exception):
    pass


class Spy:
    """estimator whose projections keep their arguments and do what they are told: ask a real estimator, or answer by script"""
    def __init__(self, real, rng, n, x0, power, damping):
        self.real, self.rng, self.n, self.x0 = real, rng, n, x0
        self.power, self.damping = power, damping
        self.mode, self.calls = "real", []

    def answer(self, state, args, which):
        mode, rng, n = self.mode, self.rng, self.n
        if mode == "real":
            return getattr(self.real, which)(*args[0], **args[1])
        if mode == "fail":
            raise np.linalg.LinAlgError("planted")
        if mode == "other":
            raise Fail("planted")
        c, exc = guard(lambda: np.array(copy.deepcopy(state).cov))
        S = c if not exc else np.eye(n)
        m = np.array(copy.deepcopy(state).mean) if not exc else np.zeros(n)
        try:
            np.linalg.cholesky(S)
            ok = np.max(np.abs(S)) < 1e6
        except np.linalg.LinAlgError:
            ok = False
        if not ok:
            S, m = rng.spd(n), rng.vec(n)
        if mode == "near":
            A = np.eye(n) + 0.3 * rng.r.randn(n, n)
            S2 = A @ S @ A.T
            return Gaussian(m + rng.vec(n, 0.3), (S2 + S2.T) / 2 * rng.choice([0.5, 0.8, 1.3]))
        if mode == "sharp":
            return Gaussian(m + rng.vec(n), rng.spd(n) * 1e-3)
        if mode == "vague":
            return Gaussian(rng.vec(n), rng.spd(n) * rng.choice([1e3, 1e6]))
        if mode == "natural":
            return Gaussian.from_natural(rng.spd(n), rng.vec(n))
        if mode == "improper":
            return Gaussian(rng.vec(n), rng.sym(n))
        if mode == "negnat":
            return Gaussian.from_natural(rng.sym(n), rng.vec(n))
        if mode == "zerocov":
            return Gaussian(rng.vec(n), np.zeros((n, n)))
        if mode == "flatnat":
            return Gaussian.from_natural(np.zeros((n, n)), np.zeros(n))
        if mode == "nan":
            return Gaussian(rng.vec(n), np.full((n, n), np.nan))
        if mode == "infcov":
            return Gaussian(rng.vec(n), np.diag(np.where(np.arange(n) == n - 1, np.inf, 1.0)))
        if mode in ("nanone", "nanmean", "infmean"):
            S, m = rng.spd(n), rng.vec(n)
            if mode == "nanone":
                S[-1, 0] = S[0, -1] = np.nan
            else:
                m[rng.p.randrange(n)] = np.nan if mode == "nanmean" else -np.inf
            return Gaussian(m, S)
        raise KeyError(mode)

    def note(self, which, func, state, args, **more):
        fid, exc = guard(lambda: V(func(self.x0)))
        rec = {"fid": fid if not exc else [exc], "cav": nat(state)}
        rec.update(more)
        self.calls.append((which, rec))
        try:
            r = self.answer(state, args, which)
            d = nat(r) if self.mode in ("natural", "negnat", "flatnat") else mom(r)
            rec.update(res=d, rexc="")
            return r
        except np.linalg.LinAlgError:
            rec.update(res={"m": [], "S": []}, rexc="LinAlgError")
            raise
        except Exception as x:
            rec.update(res={"m": [], "S": []}, rexc=type(x).__name__)
            raise

    def proj_trans(self, *a, **k):
        func, state = bind(a, k, ("func", "state"))[:2]
        return self.note("proj_trans", func, state, (a, k))

    def proj_meas(self, *a, **k):
        func, state, meas = bind(a, k, ("func", "state", "meas"))
        return self.note("proj_meas", func, state, (a, k), y=V(meas))

    def proj_back(self, *a, **k):
        func, state, nc, nx = bind(a, k, ("func", "state", "next_fwd_cavity", "next_state"))
        return self.note("proj_back", func, state, (a, k), ncav=nat(nc), next=nat(nx) if nx is not None else {"m": [], "S": []})


def bind(a, k, names):
    out = list(a) + [None] * (len(names) - len(a))
    for i, nm in enumerate(names):
        if nm in k:
            out[i] = k[nm]
    return out


FAKES = ["near"] * 6 + ["sharp", "vague", "natural", "improper", "negnat", "zerocov", "flatnat", "nan", "nanone", "nanmean", "infmean", "infcov"]


def chain(rng, N, n, m, power, damping, linear, which, order=0, warm=False):
    df = poly(rng, n, n, 0 if linear else 0.1, td=True, lin=0.5)
    dh = poly(rng, n, m, 0 if linear else 0.1)
    x0 = np.arange(1, n + 1) / 7.0
    sysm = DynamicSystemModel(n, m, fn(df), fn(dh), GaussianNoise(n, rng.spd(n)), GaussianNoise(m, rng.spd(m)),
                              Gaussian(rng.vec(n), rng.spd(n)), dt=rng.choice([1, 0.5, 0.25]))
    cls = TaylorTransform if which == "TT" else UnscentedTransform
    real = Estimator(cls(dim=n), cls(dim=n), sysm.system_noise.cov, sysm.measurement_noise.cov, power=power, damping=damping)
    spy = Spy(real, rng, n, x0, power, damping)
    ys = [rng.vec(m) * (rng.p.random() < .85) for _ in range(N)]
    nodes = build_nodes(N, n)
    if warm:                                          # a chain that starts from beliefs it is given
        fs = [[Gaussian.from_natural(rng.choice([0.0, 0.1, 0.4]) * rng.spd(n), rng.vec(n)) for _ in range(3)] for _ in range(N)]
        nodes = [Node(n, index=i, factor_init=tuple(fs[i]) if rng.p.random() < .8 else None,
                      marginal_init=Gaussian(rng.vec(n), rng.spd(n, 0.2, 1)) if rng.p.random() < .8 else None) for i in range(N)]
        for a, b in zip(nodes, nodes[1:]):
            a.next_node, b.prev_node = b, a
    if order:
        nodes = node_system(node_estimator(nodes, spy), sysm, ys)
    else:
        nodes = node_estimator(node_system(nodes, sysm, ys), spy)
    run = {"p": q(power), "d": q(damping), "n": n, "prior": mom(sysm.init_state), "ys": [V(y) for y in ys],
           "tv": [V(sysm.transition(x0, t=i * sysm.dt, u=0.0)) for i in range(N)], "hv": V(sysm.measurement(x0))}
    return nodes, spy, run


UPD = {"fwd": "fwd_update", "meas": "meas_update", "back": "back_update"}


def play(nodes, spy, run, hist, name):
    ev = [{"op": "start", "nodes": [beliefs(x) for x in nodes], "dig": digs(nodes)}]
    snaps = []                                        # copies of nodes: they keep the beliefs they were made with
    for i, k, mode in hist:
        if spy.rng.p.random() < 0.1 and len(snaps) < 4:
            c, exc = guard(nodes[spy.rng.choice([i, i, max(1, i - 1)]) - 1].copy)
            j = i if not exc and c.index == i - 1 else max(1, i - 1)
            snaps += [c] if not exc else []
            ev.append({"op": "copy", "i": j, "exc": exc, "dig": guard(digs, list(nodes) + snaps)[0] or [], "aside": c is not nodes[j - 1]})
        spy.mode, spy.calls = mode, []
        r, exc = guard(getattr(nodes[i - 1], UPD[k]))
        e = {"op": "upd", "i": i, "k": k, "mode": mode, "exc": exc, "ncalls": len(spy.calls)}
        good = [c for c in spy.calls if c[0] == {"fwd": "proj_trans", "meas": "proj_meas", "back": "proj_back"}[k]]
        e["ncalls"] = len(good) if len(good) == len(spy.calls) else 0
        if good:
            e["call"] = good[-1][1]
        e["post"] = beliefs(nodes[i - 1])
        e["dig"] = digs(list(nodes) + snaps)
        ev.append(e)
    run.update(name=name, ev=ev)
    return run


PD = [(1, 1), (1, 0.5), (0.5, 1), (0.5, 0.6), (1, 1.0), (0.7, 0.3), (2, 1), (2, 0.5), (0.1, 0.9), (1.0, 0.8), (0.2, 1), (1, 0.1), (3, 0.7)]


def modes(rng, hist, mix):
    """the generated schedule says where the projection fails; elsewhere it asks the real estimator or answers by script"""
    out = []
    for i, k, o in hist:
        if o == "fail":
            out.append((i, k, rng.choice(["fail"] * 5 + ["other"])))
        else:
            out.append((i, k, "real" if rng.p.random() > mix else rng.choice(FAKES)))
    return out


def sweep(N):
    h = []
    for i in range(1, N + 1):
        h += [(i, "fwd", "ok"), (i, "meas", "ok")]
    return h + [(i, "back", "ok") for i in range(N, 0, -1)]


def run(prop, shard, nshards, seed, tier, gen):
    runs = []
    shorts = json.load(open(os.path.join(gen, "short.json")))
    sim3 = json.load(open(os.path.join(gen, "sim3.json")))[::18]
    sim7 = json.load(open(os.path.join(gen, "sim7.json")))[::42]
    jobs = [("short", h) for h in shorts] + [("sim3", h) for h in sim3] + [("sim7", h) for h in sim7]
    for N in (1, 2, 3, 5, 12):
        jobs += [("sweeps%d" % N, sweep(N) * (3 if N < 6 else 1))] * (2 if tier == "quick" else 12)
        jobs += [("rev%d" % N, list(reversed(sweep(N))) + sweep(N))]
    for j, (kind, h) in my(list(enumerate(jobs)), shard, nshards):
        rng = Rng(seed * 7919 + j)
        N = max(3, max(x[0] for x in h)) if kind in ("short", "sim3") else (7 if kind == "sim7" else int(kind[3:].lstrip("eps")))
        n = rng.choice([1, 1, 2, 2, 3, 4]) if kind != "sim7" else rng.choice([1, 2])
        p, d = PD[j % len(PD)] if rng.p.random() < 0.7 else (round(rng.p.uniform(0.1, 1), 2), round(rng.p.uniform(0.05, 1), 2))
        nodes, spy, hdr = chain(rng, N, n, rng.choice([1, n, 2]), p, d, rng.p.random() < .5, rng.choice(["TT", "UT"]), order=j % 2, warm=j % 5 == 3)
        mix = rng.choice([0, 0.3, 0.8]) if kind != "short" else 0.5
        if not kind.startswith(("short", "sim")):
            mix = rng.choice([0, 0.1])
        runs.append(play(nodes, spy, hdr, modes(rng, h, mix), "%s-%d" % (kind, j)))
    return {"TEP": {"cfg": "Trace.cfg", "runs": runs}}


if __name__ == "__main__":
    main(run)
