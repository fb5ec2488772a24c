"""Calls of Estimator.proj_trans / proj_meas / proj_back, for TEstim."""
from models import *
from functools import partial
from StateModel import Gaussian
from MomentMatching import TaylorTransform, UnscentedTransform
from MomentMatching.MomentMatch import MappingTransform
from MomentMatching.Estimator import Estimator


class Rec(MappingTransform):
    """a transform that keeps what it was asked and what it answered; answers with preset moments, or asks another one"""
    def __init__(self, inner=None):
        super().__init__()
        self.inner, self.preset, self.calls = inner, None, []

    def _transform(self, func, state):
        s = copy.deepcopy(state)
        if self.inner is not None:
            r = self.inner(func, state)
        else:
            r = tuple(np.array(a, dtype=float) for a in self.preset)
        self.calls.append((func, s, tuple(np.array(a, dtype=float) for a in r)))
        return r



def mk(rng, n, kind=None):
    kind = kind or rng.choice(["mom", "mom", "nat", "far", "tight"])
    s = {"far": 30.0, "tight": 1.0}.get(kind, 1.0)
    if kind == "nat":
        g = Gaussian.from_natural(rng.spd(n), rng.vec(n))
    else:
        g = Gaussian(rng.vec(n, s), rng.spd(n) * (rng.choice([1e-4, 1e-7]) if kind == "tight" else 1))
    d = nat(g) if kind == "nat" else mom(g)
    if rng.p.random() < 0.3:
        g.precision, g.mean
    return g, d


def preset(rng, n, k, S, kind):
    """consistent moments of a k-vector jointly Gaussian with the n-vector of covariance S"""
    A = rng.r.randn(k, n)
    mu = rng.vec(k, rng.choice([1, 10]))
    if kind == "rough":             # any numbers: the formulas are to hold for whatever the transform answers
        return mu, rng.spd(k), rng.r.randn(n, k)
    C = A @ S @ A.T + (rng.spd(k) * 0.2 if kind == "nl" else 0)
    if kind == "indef":
        C = C - np.eye(k) * rng.choice([5.0, 50.0])
    return mu, (C + C.T) / 2, S @ A.T


POWERS = [1, 1, 1.0, 0.5, 2, 2.0, 0.1, 0.3, 0.7, 1.5, 3, 0.05, 0.99, 1.01, 0.999]


def one(rng, i, prop):
    ev = []
    n = rng.choice([1, 1, 2, 3, 4, 5, 6]) if i % 29 != 11 else rng.choice([12, 20])
    k = rng.choice([1, 1, n, 2, 3, 4])
    p = rng.choice(POWERS)
    Q = rng.spd(n) * rng.choice([1, 0.01, 10, 1e-6]) if rng.p.random() < .9 else np.zeros((n, n))
    R = rng.spd(k) * rng.choice([1, 0.01, 10, 1e-6])
    real = rng.choice([None, None, "TT", "UT"])
    tt, mt = Rec(), Rec()
    if real:
        dt = poly(rng, n, n, 0.2)
        dm = poly(rng, n, k, 0.2)
        cls = TaylorTransform if real == "TT" else UnscentedTransform
        tt, mt = Rec(cls(dim=n)), Rec(cls(dim=n))
        ft, fm = fn(dt), fn(dm)
    else:
        ft, fm = (lambda x: x), (lambda x: 3 * x)
    if p == 1 and rng.p.random() < .3:
        est = Estimator(tt, mt, Q, R)
    else:
        est = Estimator(trans_map=tt, meas_map=mt, trans_noise=Q, meas_noise=R, power=p, damping=rng.choice([1, 0.5]))
    pool, f0t, f0m = [], ft, fm

    def gt(x, t=0, u=None):
        return f0t(x) + 0.25 * t

    def gm(x, t=0, u=None):
        return f0m(x) - 0.5 * t
    for step in range(8):
        op = rng.choice(["trans", "meas", "trans", "meas", "back"] if prop == "C09" else ["back", "back", "trans", "meas"])
        # beliefs come round again, as the same object or as an equal one, with other functions
        if pool and rng.p.random() < 0.5:
            g, d = pool[-1] if rng.p.random() < 0.7 else rng.choice(pool)
            if rng.p.random() < 0.3:
                g = g.copy()
        else:
            g, d = mk(rng, n)
            pool.append((g, d))
        if rng.p.random() < .5:
            ft = (lambda x, c=step: f0t(x) + 0.25 * c)
            fm = (lambda x, c=step: f0m(x) - 0.5 * c)
        else:                       # one function at several times
            ft, fm = partial(gt, t=step), partial(gm, t=step)
        if op == "meas" and rng.p.random() < 0.12:
            g = Gaussian(rng.vec(n), rng.sym(n))
            d = mom(g)
        S = np.array(copy.deepcopy(g).cov)
        kind = rng.choice(["nl", "nl", "lin", "rough", "indef" if op != "back" else "nl"])
        tr = mt if op == "meas" else tt
        tr.preset = preset(rng, n, k if op == "meas" else n, S, kind)
        tr.calls.clear()
        (tt if tr is mt else mt).calls.clear()
        if rng.p.random() < 0.15:           # powers are plain attributes
            p = rng.choice(POWERS)
            est.power = p
        Qs, Rs, gs = q_all(Q), q_all(R), show(g) if op != "meas" else None
        e = {"op": op, "p": q(p), "s": mom(g)}
        extra = []
        if op == "trans":
            r, exc = guard(est.proj_trans, ft, g)
            e["Q"] = M(Q)
        elif op == "meas":
            y = rng.vec(k, 2) * (rng.p.random() < .85)
            ya = y.copy()
            form = rng.choice(["arr", "arr", "list", "zerod"])
            yy = ya if form == "arr" or (form == "zerod" and k > 1) else (np.squeeze(ya) if form == "zerod" else list(ya))
            gs = show(g)
            r, exc = guard(est.proj_meas, fm, g, yy)
            e.update(R=M(R), y=V(y))
            extra.append(V(yy) == V(y))
        else:
            cav, cd = mk(rng, n, rng.choice(["mom", "nat", "nat"]))
            if rng.p.random() < 0.15:
                cav = Gaussian.from_natural(np.zeros((n, n)), np.zeros(n)) if rng.p.random() < .5 else Gaussian.from_natural(-0.02 * rng.spd(n), rng.vec(n))
                cd = nat(cav)
            nx, nd = mk(rng, n)
            has = rng.p.random() < 0.75
            cs, ns = show(cav), show(nx)
            if has:
                r, exc = guard(est.proj_back, ft, g, cav, nx) if rng.p.random() < .5 else guard(est.proj_back, ft, g, cav, next_state=nx)
            else:
                r, exc = guard(est.proj_back, ft, g, cav)
            e.update(Q=M(Q), cav=cd, next=[nd] if has else [])
            extra += [show(cav) == cs, show(nx) == ns]
        e["exc"] = exc
        calls = tr.calls
        e["kept"] = bool(show(g) == gs and q_all(Q) == Qs and q_all(R) == Rs and all(extra))
        refused = exc == "LinAlgError" and not calls
        e["asked"] = bool(refused or (len(calls) >= 1 and all(same(c[0], fm if op == "meas" else ft, n) and mom(c[1]) == e["s"] for c in calls)
                                      and not (tt if tr is mt else mt).calls))
        T = calls[-1][2] if calls else tr.preset
        if T is None:
            T = (np.zeros(k if op == "meas" else n), np.eye(k if op == "meas" else n), np.zeros((n, k if op == "meas" else n)))
        kk = np.size(T[0])
        e["T"] = {"mean": V(T[0]), "cov": M(T[1], kk, kk), "cross": M(T[2], n, kk)}
        e["res"] = dict(mom(r), mshape=list(np.shape(r.mean))) if not exc else {"m": [], "S": [], "mshape": []}
        ev.append(e)
    return {"name": "estim-%d" % i, "ev": ev}


def same(f, g, n):
    if f is g:
        return True
    x = np.arange(1.0, n + 1)
    a, exc = guard(f, x)
    return not exc and V(a) == V(g(x))


def q_all(a):
    return V(a)


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 15
    return {"TEstim": {"cfg": "Trace.cfg", "runs": [one(Rng(seed * 7919 + i), i, prop) for i in my(range(90 * k), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
