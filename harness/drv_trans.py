"""Calls of the moment-matching transforms, for TTrans."""
from models import *
from functools import partial
from StateModel import Gaussian
from MomentMatching import TaylorTransform, UnscentedTransform, MonteCarloTransform
from Systems import UniformNonlinearGrowthModel, BearingsOnlyTracking, BearingsOnlyTrackingTurn


def state(rng, n, kind=None):
    kind = kind or rng.choice(["mom", "mom", "nat", "scaled", "far"])
    if kind == "nat":
        return Gaussian.from_natural(rng.spd(n), rng.vec(n))
    if kind == "indef":
        return Gaussian(rng.vec(n), rng.sym(n))
    if kind == "singular":
        v = rng.vec(n)
        return Gaussian(rng.vec(n), np.outer(v, v))
    if kind == "zero":
        return Gaussian(rng.vec(n), np.zeros((n, n)))
    if kind == "cavity":
        return Gaussian.from_natural(rng.sym(n), rng.vec(n))
    S = rng.spd(n)
    if kind == "tiny":
        S = S * 1e-9
    if kind == "scaled":
        s = np.diag(np.exp(rng.r.uniform(-3, 3, n)))
        S = s @ S @ s
    return Gaussian(rng.vec(n, 20 if kind == "far" else 1), S)


def call(tr, f, g, tag):
    before = show(g)
    r, exc = guard(tr, f, g)
    e = {"exc": exc, "kept": show(g) == before, "tag": tag}
    d = mom(g)
    e.update(d)
    if not exc:
        try:
            mean, cov, cross = r
            e["mean"] = V(mean)
            k = len(e["mean"])
            e["cov"] = M(cov, k, k)
            e["cross"] = M(cross, len(d["m"]), k)
        except Exception as x:
            e["exc"] = type(x).__name__
    if e["exc"]:
        e.update(mean=[], cov=[], cross=[])
    return e


SYS = [("ungm", UniformNonlinearGrowthModel, 1), ("bot", BearingsOnlyTracking, 4), ("bott", BearingsOnlyTrackingTurn, 5)]


def sysdesc(name, which):
    if name == "ungm":
        return {"k": "ungm_" + which}
    if name == "bot":
        return {"k": "bot_f", "dt": 0.1} if which == "f" else {"k": "bot_h", "sx": np.array([-10., 10, -10, 10]), "sy": np.array([10., 10, -10, -10])}
    return {"k": "bott_f", "dt": 1} if which == "f" else {"k": "bott_h", "sx": 1e4 * np.array([-2., 2, -2, 2]), "sy": 1e4 * np.array([2., 2, -2, -2])}


def taylor(rng, i):
    ev = []
    for j in range(6):
        n = rng.choice([1, 1, 2, 3, 4, 5, 6]) if i % 29 != 11 or j > 1 else rng.choice([10, 12])
        m = rng.choice([1, 1, n, 2, 3, 5])
        td = rng.choice([True, False])
        nl = rng.choice([0.0, 0.3, 1.0])
        if rng.p.random() < 0.75:
            d = poly(rng, n, m, nl, td)
        else:
            d = {"k": "trig", "c": rng.round(rng.vec(m)), "A": rng.round(rng.r.randn(m, n)), "T": rng.round(rng.vec(m))}
        f = fn(d, rng.choice(["plain", "batch"]))
        t, u = (rng.choice([0.0, 1.5, -2.0]), rng.choice([0.0, 0.7]))
        g = state(rng, n, rng.choice([None, None, "tiny", "indef", "singular", "zero", "cavity"]))
        tr = TaylorTransform(dim=n) if rng.p.random() < 0.7 else TaylorTransform(n)
        e = call(tr, lambda x: f(x, t=t, u=u), g, "C06")
        e.update(op="tt", f=desc(d), t=q(t), u=q(u))
        ev.append(e)
        # the same transform object again, for another state and function (nothing may be remembered)
        if rng.p.random() < 0.4:
            d2 = poly(rng, n, m, 0.5)
            f2 = fn(d2)
            g2 = state(rng, n)
            e = call(tr, f2, g2, "C06")
            e.update(op="tt", f=desc(d2), t="0", u="0")
            ev.append(e)
        # ... nor when only the function's parameters, or only the state, are new
        if rng.p.random() < 0.5:
            same = fn(d, rng.choice(["plain", "batch"]))
            g = Gaussian(np.array(g.mean), rng.spd(n))
            for t2, u2, g2 in ((t, u, g), (t + 1, u, g), (t + 1, u - 1, g), (t + 1, u - 1, Gaussian(np.array(g.mean), rng.spd(n))), (t, u, g)):
                e = call(tr, partial(same, t=t2, u=u2), g2, "C06")
                e.update(op="tt", f=desc(d), t=q(t2), u=q(u2))
                ev.append(e)
        if d["k"] == "poly":
            fp = fn(d)
            x0 = rng.vec(n)
            J, exc = guard(TaylorTransform.numerical_jacobian, lambda x: fp(x, t=t, u=u), x0)
            ev.append({"op": "jac", "f": desc(d), "m": V(x0), "t": q(t), "u": q(u), "J": M(J, m, n) if not exc else [], "exc": exc})
    name, cls, n = SYS[i % 3]
    s = cls()
    x0 = np.array(s.init_state.mean) + rng.vec(n, 0.3)
    g = Gaussian(x0, np.array(s.init_state.cov))
    t = float(rng.choice([0, 1, 7]))
    for which, f in (("f", s.transition), ("h", s.measurement)):
        e = call(TaylorTransform(dim=n), lambda x: f(x, t=t, u=0.0), g, "C06")
        e.update(op="tt", f=desc(sysdesc(name, which)), t=q(t), u="0")
        ev.append(e)
    return {"name": "taylor-%d" % i, "ev": ev}


def chosen(rng, kind, n, par):
    """the transition or the measurement transform of the pair the experiments select"""
    from Experiments.EP_FullSweep import select_transform
    one = rng.choice([0, 1])
    kind = rng.choice([kind, kind.lower()])
    if isinstance(par, dict):
        other = {"alpha": 0.9, "beta": 0.5, "kappa": 1.5}
        ps = [par, other] if one == 0 else [other, par]
        return select_transform(kind, n, **{k + str(i + 1): ps[i][k] for i in (0, 1) for k in par})[one]
    return select_transform(id=kind, dim=n, samples=par)[one]


def unscented(rng, i):
    ev = []
    for j in range(7):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 7]) if i % 29 != 11 or j > 1 else rng.choice([10, 12])
        m = rng.choice([1, n, 2, 4])
        par = {"alpha": rng.choice([1, 1, 0.5, 0.1, 2, 1e-2, 0.9]), "beta": rng.choice([2, 0, 1, 0.5, -1.5]),
               "kappa": rng.choice([1, 0, 2, 3, 0.5, 3 - n if n < 3 else -1, -0.5])}
        if n + par["kappa"] <= 0:
            par["kappa"] = 1
        dflt = rng.p.random() < 0.15
        if dflt:
            par = {"alpha": 1, "beta": 2, "kappa": 1}
        tr = chosen(rng, "UT", n, par) if rng.p.random() < 0.15 and not dflt else UnscentedTransform(n) if dflt else (UnscentedTransform(n, par["alpha"], par["beta"], par["kappa"]) if rng.p.random() < .5 else UnscentedTransform(dim=n, **par))
        aff = rng.p.random() < 0.3
        d = poly(rng, n, m, 0 if aff else 0.5)
        f = Spy(fn(d, rng.choice(["plain", "batch"])), n)
        kind = rng.choice(["mom"] * 4 + ["nat", "tiny", "scaled", "far", "singular", "zero", "indef"])
        g = state(rng, n, kind)
        for rep in range(rng.choice([1, 1, 2])):
            f.pts, f.vals = [], []
            e = call(tr, f, g, "C07")
            e.update(op="ut", par={k: q(v) for k, v in par.items()}, pts=f.pts, vals=f.vals, t="0", u="0", f=desc(d) if aff else {"k": "none"})
            ev.append(e)
            # the same state through another transform and another function
            if rng.p.random() < 0.4:
                par2 = {"alpha": rng.choice([1, 0.7, 0.2]), "beta": rng.choice([2, 0]), "kappa": rng.choice([0, 1, 2.5])}
                f2 = Spy(fn(poly(rng, n, m, 0.5)), n)
                e = call(UnscentedTransform(n, **par2), f2, g, "C07")
                e.update(op="ut", par={k: q(v) for k, v in par2.items()}, pts=f2.pts, vals=f2.vals, t="0", u="0", f={"k": "none"})
                ev.append(e)
            g = state(rng, n)
    name, cls, n = SYS[i % 3]
    s = cls()
    g = Gaussian(np.array(s.init_state.mean) + rng.vec(n, 0.3), np.array(s.init_state.cov))
    par = {"alpha": 1, "beta": 2, "kappa": rng.choice([2, 3])}
    for f0 in (s.transition, s.measurement):
        f = Spy(lambda x: f0(x, t=1.0), n)
        e = call(UnscentedTransform(dim=n, **par), f, g, "C07")
        e.update(op="ut", par={k: q(v) for k, v in par.items()}, pts=f.pts, vals=f.vals, t="0", u="0", f={"k": "none"})
        ev.append(e)
    return {"name": "unscented-%d" % i, "ev": ev}


def montecarlo(rng, i, tier):
    ev = []
    g = None
    for j in range(6):
        if g is None or rng.p.random() < 0.6:
            n = rng.choice([1, 1, 2, 3, 5])
            g = state(rng, n, rng.choice(["mom", "nat", "scaled", "tiny", "far"]))
        m = rng.choice([1, n, 2, 4])
        K = rng.choice([2, 3, 5, 10, 64, 100, 300])
        tr = chosen(rng, "MCT", n, K) if rng.p.random() < 0.15 else MonteCarloTransform(n, K) if rng.p.random() < 0.5 else MonteCarloTransform(dim=n, number_of_samples=K)
        d = poly(rng, n, m, 0.4)
        f = Spy(fn(d), n)
        if rng.p.random() < 0.5:
            g.precision, g.mean     # whatever was read before
        sd = rng.p.randint(0, 10**6)
        np.random.seed(sd)
        again = guard(tr, fn(d), g)[0]
        np.random.seed(sd)
        e = call(tr, f, g, "C08")
        e.update(op="mc", K=K, pts=f.pts, vals=f.vals, again=V(again[0]) if again is not None else [])
        ev.append(e)
    if i == 0 or (i in (40, 41) and tier != "quick"):
        K, n = {0: (10000, 1), 40: (60001, 1), 41: (12000, 2)}[i]
        tr = MonteCarloTransform() if i == 0 else MonteCarloTransform(n, number_of_samples=K)
        f = Spy(lambda x: x * 2.0, n)
        g = Gaussian(np.full(n, 0.5), 2.0 * np.eye(n) + 0.5)
        np.random.seed(i)
        again = guard(tr, lambda x: x * 2.0, g)[0]
        np.random.seed(i)
        e = call(tr, f, g, "C08")
        e.update(op="mc", K=K, pts=f.pts, vals=f.vals, again=V(again[0]) if again is not None else [])
        ev.append(e)
    return {"name": "montecarlo-%d" % i, "ev": ev}


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 15
    f, cnt = {"C06": (taylor, 40), "C07": (unscented, 40), "C08": (montecarlo, 32)}[prop]
    return {"TTrans": {"cfg": "Trace.cfg", "runs": [f(Rng(seed * 7919 + i), i, *((tier,) if f is montecarlo else ())) for i in my(range(cnt * k), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
