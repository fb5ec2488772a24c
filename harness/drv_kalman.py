"""Filters and smoothers on data, and the first EP sweep, for TKalman (C15 to C19)."""
from models import *
from StateModel import Gaussian
from Systems import UniformNonlinearGrowthModel, BearingsOnlyTracking, BearingsOnlyTrackingTurn
from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
from MomentMatching import TaylorTransform, UnscentedTransform
from MomentMatching.Estimator import Estimator
from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from ExpectationPropagation import Iterations


def transform(rng, n, which=None):
    which = which or rng.choice(["TT", "TT", "UT", "UT", "UTk"])
    if which == "TT":
        return TaylorTransform(dim=n), {"k": "TT"}
    par = {"alpha": 1, "beta": 2, "kappa": 1}
    if which == "UTk":
        par = {"alpha": rng.choice([1, 0.8]), "beta": rng.choice([2, 0]), "kappa": rng.choice([2, 3, 0.5])}
    return UnscentedTransform(dim=n, **par), dict({k: q(v) for k, v in par.items()}, k="UT")


def model(rng, kind=None, htime=True, nmax=4):
    """(system, descriptor of its functions, dimension, measurement dimension)"""
    kind = kind or rng.choice(["lin", "poly", "poly", "trig", "trig", "ungm", "bot", "bott"])
    if kind == "ungm":
        s = UniformNonlinearGrowthModel()
        return s, {"f": {"k": "ungm_f"}, "h": {"k": "ungm_h"}}, 1, 1
    if kind == "bot":
        s = BearingsOnlyTracking()
        return s, {"f": {"k": "bot_f", "dt": q(0.1)}, "h": desc({"k": "bot_h", "sx": np.array([-10., 10, -10, 10]), "sy": np.array([10., 10, -10, -10])})}, 4, 4
    if kind == "bott":
        s = BearingsOnlyTrackingTurn()
        return s, {"f": {"k": "bott_f", "dt": "1"}, "h": desc({"k": "bott_h", "sx": 1e4 * np.array([-2., 2, -2, 2]), "sy": 1e4 * np.array([2., 2, -2, -2])})}, 5, 4
    n = rng.choice([k for k in (1, 1, 2, 2, 3, 4) if k <= nmax])
    m = rng.choice([1, 1, n, 2, 3])
    td = rng.p.random() < .7
    df = poly(rng, n, n, 0 if kind == "lin" else 0.08, td, lin=0.5)
    if kind == "trig":
        df = {"k": "trig", "c": rng.round(rng.vec(n)), "A": rng.round(rng.r.randn(n, n) * 0.8), "T": rng.round(rng.vec(n)) * td}
    dh = poly(rng, n, m, 0 if kind == "lin" else 0.1, td and htime)
    style = rng.choice(["plain", "plain", "batch"])
    s = DynamicSystemModel(n, m, fn(df, style), fn(dh, style), GaussianNoise(n, rng.spd(n) * rng.choice([1, 0.1])), GaussianNoise(m, rng.spd(m)),
                           Gaussian(rng.vec(n), rng.spd(n)), dt=rng.choice([1, 1, 0.5, 0.1, 2, 0.25, 0.03125, 1.37]))
    return s, {"f": desc(df), "h": desc(dh)}, n, m


def header(rng, s, md, N):
    dm = {"f": md["f"], "h": md["h"], "Q": M(s.system_noise.cov), "R": M(s.measurement_noise.cov)}
    np.random.seed(rng.p.randint(0, 10**6))
    data, exc = guard(s.simulate, N)
    ys = [np.asarray(y, dtype=float) for _, y in data] if not exc else [np.zeros(s.measurement_dim)] * N
    if rng.p.random() < .2:                           # an observation may well be zero
        for j in rng.p.sample(range(N), rng.p.randint(1, N)):
            ys[j] = np.zeros(np.shape(ys[j]))
    return dm, ys


def snapshot(s, ys):
    return [V(y) for y in ys] + [mom(s.init_state), V(s.system_noise.cov), V(s.measurement_noise.cov)]


def moms(lst):
    return [mom(x) for x in lst]


def filters(rng, i):
    ev = []
    s, md, n, m = model(rng)
    big = n > 3
    dm, ys = header(rng, s, md, 1)
    tr, trd = transform(rng, n, "TT" if big and i % 2 else None)
    sep = rng.p.random() < .5
    mt, mtd = transform(rng, n) if sep else (tr, trd)
    k = KalmanFilterSmoother(tr, s, mt) if sep and rng.p.random() < .5 else (KalmanFilterSmoother(tr, s, meas_moment_matching=mt) if sep else KalmanFilterSmoother(moment_matching=tr, system_model=s))
    for rep in range(rng.choice([1, 2, 2])):
        N = rng.choice([1, 2, 3, 5] if big else [1, 2, 4, 8]) if n > 1 or i % 9 else rng.choice([25, 60])
        dm, ys = header(rng, s, md, N)
        form = rng.choice(["plain", "row", "list"])
        given = [y.reshape(1, -1) for y in ys] if form == "row" else (np.array([np.ravel(y) for y in ys]) if form == "list" else ys)
        kw, t0, u = {}, 0.0, None
        if rng.p.random() < .5:
            t0 = kw["t_zero"] = rng.choice([1.0, -2.0, 0.25, 10])
        if rng.p.random() < .4:
            u = rng.choice([0.5, -1.0, 2])
            kw["u"] = whole(rng, u, N)
        prior = s.init_state
        fk = dict(kw)
        if rng.p.random() < .4:
            prior = fk["prior_state"] = Gaussian(np.array(s.init_state.mean).ravel() + 0.1, np.array(s.init_state.cov) * 1.5) if rng.p.random() < .7 or n > 3 else Gaussian.from_natural(rng.spd(n), rng.vec(n))
        before, pb = snapshot(s, ys), show(prior)
        fil, exc = guard(k.kalman_filter, given, **fk)
        e = {"op": "filter", "tag": "C16", "md": dm, "tr": trd, "mr": mtd, "prior": mom(prior), "t0": q(t0), "dt": q(s.dt), "u": q(u or 0.0),
             "ys": [V(y) for y in ys], "exc": exc, "fil": moms(fil) if not exc else []}
        e["kept"] = snapshot(s, ys) == before and show(prior) == pb
        if not exc:
            fb = [show(x) for x in fil]
            smo, exc2 = guard(k.kalman_smoother, fil, **kw) if rng.p.random() < .6 else guard(k.kalman_smoother, list(fil), kw.get("u"), t0)
            e["smo"] = moms(smo) if not exc2 else []
            e2 = {"op": "filter", "tag": "C17", "kept": [show(x) for x in fil] == fb and len(fil) == N}
            ev.append(dict(e, **{"tag": "C17", "kept": e2["kept"]}))
        else:
            ev.append(e)
        ev.append(dict(e, op="none", ev=0)) if False else None
        if not e["kept"]:
            ev.append(dict({x: e[x] for x in e if x != "smo"}))
        # steps called directly
        g = Gaussian(np.array(mom_arr(fil[0])[0]) + rng.vec(n, .1), mom_arr(fil[0])[1]) if not exc else Gaussian(np.zeros(n), np.eye(n))
        t, uu = rng.choice([0.0, 1.5, -3.0]), rng.choice([0.0, 0.8])
        base = {"md": dm, "tr": trd, "mr": mtd, "g": mom(g), "t": q(t), "u": q(uu), "kept": True}
        r, x = guard(k.predict, g, t=t, u=uu)
        ev.append(dict(base, op="pred", tag="C16", exc=x, res=mom(r) if not x else {"m": [], "S": []}))
        r, x = guard(k.correct, g, ys[0].squeeze(), t=t, u=uu)
        ev.append(dict(base, op="corr", tag="C16", y=V(ys[0]), exc=x, res=mom(r) if not x else {"m": [], "S": []}))
        nx = Gaussian(np.array(mom_arr(g)[0]) + rng.vec(n, .1), mom_arr(g)[1] * 0.9)
        gb, nb = show(g), show(nx)
        r, x = guard(k.smooth, g, nx, t=t, u=uu)
        ev.append(dict(base, op="smooth", tag="C17", next=mom(nx), exc=x, res=mom(r) if not x else {"m": [], "S": []}, kept=show(g) == gb and show(nx) == nb))
    return {"name": "filters-%d" % i, "ev": ev}


def mom_arr(g):
    return np.array(g.mean, dtype=float).ravel(), np.array(g.cov, dtype=float)


def ep(rng, i):
    ev = []
    s, md, n, m = model(rng, rng.choice(["lin", "poly", "poly", "trig", "trig", "ungm", "bot"]), htime=False)
    N = rng.choice([1, 2, 3, 5, 8] if n < 3 else [1, 2, 4]) if n > 1 or i % 9 else rng.choice([20, 35])
    dm, ys = header(rng, s, md, N)
    tr, trd = transform(rng, n)
    mt, mtd = (tr, trd) if rng.p.random() < .5 else transform(rng, n)
    one = rng.choice([1, 1.0])
    est = Estimator(tr, mt, s.system_noise.cov, s.measurement_noise.cov) if rng.p.random() < .3 else Estimator(tr, mt, s.transition_noise.cov, s.measurement_noise.cov, power=one, damping=rng.choice([1, 1.0]))
    before = snapshot(s, ys)

    def build():
        if rng.p.random() < .3:
            return build_nodes(N, n, est, s, ys)
        return node_system(node_estimator(build_nodes(N=N, dim=n), estimator=est), system_model=s, measurements=ys)
    a, b = build(), build()
    _, x1 = guard(Iterations.kalman_filter, a)
    fil = moms([x.marginal for x in a])
    _, x2 = guard(Iterations.kalman_smoother, a)
    smo = moms([x.marginal for x in a])
    _, x3 = guard(Iterations.ep_fwd_back_updates, b)
    k = KalmanFilterSmoother(tr, s, mt)
    kf, x4 = guard(k.kalman_filter, ys, u=0.0)
    ks, x5 = guard(k.kalman_smoother, kf, u=0.0)
    ev.append({"op": "ep", "tag": "C15", "md": dm, "tr": trd, "mr": mtd, "prior": mom(s.init_state), "t0": "0", "dt": q(s.dt), "u": "0",
               "ys": [V(y) for y in ys], "exc": x1 or x2 or x3 or x4 or x5, "fil": fil, "smo": smo, "sweep": moms([x.marginal for x in b]),
               "kf": moms(kf) if not x4 else [], "ks": moms(ks) if not x5 else [], "kept": snapshot(s, ys) == before})
    return {"name": "ep-%d" % i, "ev": ev}


def iekf(rng, i):
    ev = []
    s, md, n, m = model(rng)
    k = IEKF(s, n) if rng.p.random() < .5 else IEKF(system_model=s, sys_dim=n)
    for rep in range(rng.choice([1, 2, 3])):
        N = rng.choice([1, 2, 4, 7]) if n > 1 or i % 9 else 30
        dm, ys = header(rng, s, md, N)
        kw, t0, u = {}, 0.0, None
        if rng.p.random() < .5:
            t0 = kw["t_zero"] = rng.choice([1.0, -2.0, 0.25])
        if rng.p.random() < .4:
            u = rng.choice([0.5, -1.0])
            kw["u"] = whole(rng, u, N)
        prior = s.init_state
        if rng.p.random() < .3:
            prior = kw["prior_state"] = Gaussian(np.array(s.init_state.mean).ravel() + 0.1, np.array(s.init_state.cov) * 1.5)
        num = 5
        if rng.p.random() < .85:
            num = kw["num_iter"] = rng.choice([1, 1, 2, 3, 6, 12])
        before, pb = snapshot(s, ys), show(prior)
        r, exc = guard(k, ys, **kw)
        ev.append({"op": "iekf", "tag": "C18", "md": dm, "tr": {"k": "TT"}, "mr": {"k": "TT"}, "prior": mom(prior), "t0": q(t0), "dt": q(s.dt), "u": q(u or 0.0), "num": num,
                   "ys": [V(y) for y in ys], "exc": exc, "res": moms(r) if not exc else [], "kept": snapshot(s, ys) == before and show(prior) == pb})
    return {"name": "iekf-%d" % i, "ev": ev}


def ieks(rng, i):
    ev = []
    s, md, n, m = model(rng, rng.choice(["lin", "poly", "trig", "trig", "ungm", "bot", "bott"]))
    N = rng.choice([1, 2, 3, 5, 8] if n < 3 else [1, 2, 4]) if n > 1 or i % 9 else rng.choice([20, 35])
    dm, ys = header(rng, s, md, N)
    k = IEKS(s, n) if rng.p.random() < .5 else IEKS(system_model=s, sys_dim=n)
    K = rng.choice([1, 2, 3, 4, 5])
    before = snapshot(s, ys)
    iters, again, exc = [], [], ""
    fresh = rng.p.random() < .5
    order = list(range(1, K + 1))
    for j in order:
        kk = IEKS(s, n) if fresh else k
        r, x = guard(kk, ys, num_iter=j)
        exc = exc or x
        iters.append(moms(r) if not x else [])
    ord2 = [rng.choice(order) for _ in range(3)]
    other = [y + 0.3 for y in ys] + ys[:1]
    for j in ord2:
        if rng.p.random() < .5:
            guard(k, other, num_iter=2)
        r, x = guard(k, ys, num_iter=j)
        exc = exc or x
        again.append(moms(r) if not x else [])
    if K == 5 and not exc:
        r, x = guard(k, ys)
        again.append(moms(r) if not x else [])
        ord2.append(5)
    ev.append({"op": "ieks", "tag": "C19", "md": dm, "tr": {"k": "TT"}, "mr": {"k": "TT"}, "prior": mom(s.init_state), "t0": "0", "dt": q(s.dt), "u": "0",
               "ys": [V(y) for y in ys], "exc": exc, "iters": iters, "again": again, "order": ord2, "kept": snapshot(s, ys) == before})
    return {"name": "ieks-%d" % i, "ev": ev}


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 12
    f, cnt = {"C15": (ep, 64), "C16": (filters, 56), "C17": (filters, 56), "C18": (iekf, 64), "C19": (ieks, 64)}[prop]
    return {"TKalman": {"cfg": "Trace.cfg", "runs": [f(Rng(seed * 7919 + i), i) for i in my(range(cnt * k), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
