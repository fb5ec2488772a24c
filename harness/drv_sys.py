"""Simulation with watched noise and model functions (C21), and the benchmark systems (C22), for TSys."""
from models import *
import inspect
from StateModel import Gaussian
from Systems import UniformNonlinearGrowthModel, BearingsOnlyTracking, BearingsOnlyTrackingTurn, TestDynamics, L96
from Systems import BearingsOnlyTracking as BOT
from Systems.DynamicSystem import DynamicSystemModel, DynamicSystem, GaussianNoise
import importlib
bot_mod = importlib.import_module("Systems.BearingsOnlyTracking")
bott_mod = importlib.import_module("Systems.BearingOnlyTrackingTurn")
l96_mod = importlib.import_module("Systems.L96")


class Watched(GaussianNoise):
    """a noise model that keeps a copy of what it drew"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.drawn = []

    def sample(self, *a, **k):
        r = super().sample(*a, **k)
        self.drawn += [V(x) for x in np.asarray(r, dtype=float).reshape(-1, self.dimension)]
        return r


class Fun:
    """a model function with a way of answering: a new array, the one it was given, a view of it, or a buffer of its own"""
    def __init__(self, f, how, n, m):
        self.f, self.how, self.buf, self.last, self.ok = f, how, np.zeros(m), None, True
        self.first = None
        self.given = []

    def check(self):
        if self.last is not None and V(self.buf) != self.last:
            self.ok = False

    def __call__(self, x, *a, **k):
        self.check()
        if self.first is None:
            self.first = V(x)
        if self.how == "arg":
            return x
        if self.how == "view":
            return x[...]
        y = self.f(x, *a, **k)
        if self.how == "buffer":
            self.buf[...] = np.ravel(y)
            self.last = V(self.buf)
            return self.buf
        return y


def ident(n):
    return {"k": "poly", "c": np.zeros(n), "A": np.eye(n), "B": np.zeros((n, n)), "X": np.zeros(n), "T": np.zeros(n), "U": np.zeros(n), "W": np.zeros(n)}


class Own(DynamicSystem):
    """a system written by subclassing the base class"""
    def __init__(self, n, m, f, h, q_, r_, init, dt):
        self._f, self._h, self.system_noise, self.measurement_noise, self.init_state, self.dt = f, h, q_, r_, init, dt

    def transition(self, x, u=None, t=None, *a, **k):
        return self._f(x, t=t, u=u)

    def measure(self, x, *a, **k):
        return self._h(x, *a, **k)


def sims(rng, i):
    ev = []
    n = rng.choice([1, 1, 2, 3])
    hf, hh = rng.choice(["new", "new", "arg", "view", "buffer"]), rng.choice(["new", "new", "arg", "view", "buffer", "batch"])
    m = n if hh in ("arg", "view") else rng.choice([1, 2, n])
    df = ident(n) if hf in ("arg", "view") else poly(rng, n, n, 0.02, rng.p.random() < .7, lin=0.5)
    df["U"], df["W"] = df["U"] * 0, df["W"] * 0.001
    if any(np.max(np.abs(fn(df)(x, t=34.0))) > 40 for x in (40 * np.ones(n), -40 * np.ones(n))):     # keep what is simulated bounded
        df["B"], df["X"], df["A"] = df["B"] * 0, df["X"] * 0, df["A"] * (0.7 / max(0.7, np.max(np.sum(np.abs(df["A"]), axis=1))))
    dh = ident(m) if hh in ("arg", "view") else poly(rng, n, m, 0.05)
    dh["T"], dh["U"], dh["W"] = dh["T"] * 0, dh["U"] * 0, dh["W"] * 0
    f, h = Fun(fn(df), hf, n, n), Fun(fn(dh, "batch" if hh == "batch" else "plain"), hh, n, m)
    kq = {} if rng.p.random() < .4 else {"mean": rng.vec(n)}
    kr = {} if rng.p.random() < .4 else {"mean": rng.choice([np.array, list])(rng.vec(m))}
    Q, Rr = Watched(n, rng.spd(n), **kq), Watched(m, rng.spd(m), **kr)
    dt, init = rng.choice([1, 0.5, 0.1, 2, 0.25, 0.03125, 1.37]), Gaussian(rng.vec(n), rng.spd(n))
    own = rng.p.random() < .2
    s = Own(n, m, f, h, Q, Rr, init, dt) if own else DynamicSystemModel(n, m, f, h, Q, Rr, init, dt=dt)
    held = []
    for rep in range(rng.choice([1, 2, 3])):
        N = rng.choice([0, 1, 2, 5, 12]) if i % 9 else rng.choice([40, 110])
        kw, t0 = {}, 0.0
        if rng.p.random() < .5:
            t0 = kw["t_zero"] = rng.choice([1, -2.5, 0.25, 10])
        x0, shape = None, None
        given = rng.p.random() < .6
        if given:
            x0 = rng.choice([rng.vec(n), rng.vec(n), np.zeros(n), rng.vec(n) * (np.arange(n) == n - 1), -np.abs(rng.vec(n)), np.array([rng.p.randint(-3, 3) for _ in range(n)])])
            if held and rng.p.random() < .5 and held[-1][0]:
                x0 = held[-1][0][-1][0]                       # go on from the last state of an earlier simulation
            if np.size(x0) == n:
                x0 = np.reshape(x0, (n,))
            before = V(x0)
            kw["x_zero"] = x0
        Q.drawn, Rr.drawn, f.first = [], [], None
        c0 = V(s.init_state.mean), V(s.init_state.cov), V(Q.cov), V(Rr.cov), V(Q.mean), V(Rr.mean)
        np.random.seed(rng.p.randint(0, 10**6))
        steps = []
        if rng.p.random() < .3 and given and hasattr(s, "_simulate"):      # step by step, looking at each pair as it comes
            def stepwise():
                for x, y in s._simulate(N, x0, t0):
                    steps.append((x, y))
                    held.append(([(x, y)], [(V(x), V(y))]))
                return steps
            r, exc = guard(stepwise)
        else:
            r, exc = guard(s.simulate, N, **kw)
        f.check()
        h.check()
        kept = f.ok and h.ok and (not given or V(x0) == before) and all([(V(x), V(y)) for x, y in a] == b for a, b in held)
        kept = kept and c0 == (V(s.init_state.mean), V(s.init_state.cov), V(Q.cov), V(Rr.cov), V(Q.mean), V(Rr.mean))
        r = r or []
        start = V(x0) if given else (f.first or V(np.zeros(n)))
        ev.append({"op": "sim", "exc": exc, "N": N, "m": m, "x0": start if not given else before, "t0": q(t0), "dt": q(dt), "f": desc(df), "h": desc(dh),
                   "xs": [V(x) for x, _ in r], "ys": [V(y) for _, y in r], "w": list(Q.drawn), "v": list(Rr.drawn), "kept": bool(kept)})
        held.append((r, [(V(x), V(y)) for x, y in r]))
    return {"name": "sim-%d" % i, "ev": ev}


def draws(rng, i):
    ev = []
    n = rng.choice([1, 2, 3, 4])
    k = 2000
    kw, mean, cov = {}, np.zeros(n), np.eye(n)
    if rng.p.random() < .6:
        cov = kw["cov"] = rng.spd(n)
    if rng.p.random() < .6:
        mean = kw["mean"] = rng.vec(n, 2)
    if n > 1 or rng.p.random() < .7:
        kw["dimension"] = n
    g, exc = guard(GaussianNoise, **kw)
    np.random.seed(rng.p.randint(0, 10**6))
    X, exc2 = guard(lambda: [g.sample() for _ in range(k)] if rng.p.random() < .5 else g.sample(size=k)) if not exc else (None, exc)
    one, exc3 = guard(g.sample) if not exc else (None, exc)
    exc = exc or exc2 or exc3
    ev.append({"op": "noise", "exc": exc, "k": k, "X": rows(X, n) if not exc else [], "mean": V(mean), "cov": M(cov), "one": V(one) if not exc else [],
               "sm": V(g.mean) if not exc else [], "sc": M(g.cov) if not exc else [], "dim": g.dimension if not exc else 0})
    # where a simulation starts when it is not told
    f = Fun(lambda x, t=None, u=None: x * 0.5, "new", n, n)
    init = Gaussian(rng.vec(n), rng.spd(n)) if rng.p.random() < .6 else Gaussian.from_natural(rng.spd(n), rng.vec(n))
    s = DynamicSystemModel(n, n, f, lambda x, t=None, u=None: x, GaussianNoise(n, rng.spd(n)), GaussianNoise(n, rng.spd(n)), init)

    def starts():
        X = []
        for _ in range(1500):
            f.first = None
            s.simulate(1)
            X.append(f.first)
        return X
    im = mom(init)
    X, exc = guard(starts)
    ev.append({"op": "start", "exc": exc, "k": 1500, "X": X or [], "mean": im["m"], "cov": im["S"]})
    return {"name": "draws-%d" % i, "ev": ev}


def batch(rng, s, what, d, x, m, t, u, pass_tu):
    fun = s.transition if what == "transition" else s.measurement
    kw = {"t": t, "u": u} if pass_tu else {}
    xb = x[0] if len(x) == 1 and rng.p.random() < .5 else x
    before = V(xb)
    y, exc = guard(fun, xb, **kw) if rng.p.random() < .7 else guard(fun, x=xb, **kw)
    same = "same"
    if not exc:
        for r in range(len(x)):
            z, e2 = guard(fun, x[r], **kw)
            zz, yy = np.ravel(z) if not e2 else np.array([]), np.reshape(y, (len(x), -1))[r]
            if e2 or zz.shape != yy.shape or not np.allclose(zz, yy, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(yy)))):
                same = "differs"
        if V(xb) != before:
            same = "argument changed"
    return {"op": "eval", "what": what, "d": d, "x": M(x), "t": q(t), "u": q(u), "m": m, "y": rows(y, m) if not exc else [], "exc": exc, "one": same}


def systems(rng, i):
    ev = []
    kind = rng.choice(["ungm", "toy", "bot", "bot", "bott", "bott", "bott", "l96", "l96"])
    e = {"op": "sys", "sys": kind}
    sens = [(rng.choice([-10, 10, 3.5, -7.25]), rng.choice([10, -10, 0.5, 12])) for _ in range(rng.choice([1, 2, 3, 5]))]
    dt = rng.choice([0.1, 1, 0.5, 2, 0.01])
    if kind in ("ungm", "toy"):
        s, exc = guard(UniformNonlinearGrowthModel if kind == "ungm" else TestDynamics)
        e["n"] = n = m = 1
        fd, hd = {"k": kind + "_f"}, {"k": kind + "_h"}
    elif kind == "bot":
        q_, r_ = rng.choice([0.01, 0.3, 2]), rng.choice([0.001, 0.5])
        kw = dict(Q_sigma=q_, R_sigma=r_, delta_t=dt, sensor_list=[bot_mod.Sensor(x=a, y=b) for a, b in sens])
        full = dict(Q_sigma=0.01, R_sigma=0.001, delta_t=0.1, sensor_list=bot_mod.Default_Sensor_List)
        for k in list(kw):
            if rng.p.random() < .3:
                kw.pop(k)
        full.update(kw)
        s, exc = guard(BOT, **kw)
        sl = full["sensor_list"]
        e.update(q=[q(full["Q_sigma"])], r=[q(full["R_sigma"])], dt=q(full["delta_t"]), sensors=len(sl))
        n, m, fd = 4, len(sl), {"k": "bot_f", "dt": q(full["delta_t"])}
        hd = {"k": "bot_h", "sx": [q(a.x) for a in sl], "sy": [q(a.y) for a in sl]}
        if not kw or "sensor_list" not in kw:
            hd = {"k": "bot_h", "sx": ["-10", "10", "-10", "10"], "sy": ["10", "10", "-10", "-10"]}
    elif kind == "bott":
        sens = [(a * 2000, b * 2000) for a, b in sens]
        full = dict(Q_sigma=[0.1, 1.75e-4], R_sigma=[np.sqrt(10) * 1e-3], delta_t=1, sensor_list=bott_mod.Default_Sensor_List)
        kw = dict(Q_sigma=rng.choice([[0.2, 0.01], (1.0, 1e-3)]), delta_t=dt, sensor_list=[bott_mod.Sensor(x=a, y=b) for a, b in sens])
        kw["R_sigma"] = rng.choice([[0.02], [0.1 * (k + 1) for k in range(len(sens))]])
        if rng.p.random() < .3:
            kw.pop("sensor_list"), kw.pop("R_sigma")
        for k in ("Q_sigma", "delta_t"):
            if rng.p.random() < .3:
                kw.pop(k)
        full.update(kw)
        s, exc = guard(BearingsOnlyTrackingTurn, **kw)
        sl = full["sensor_list"]
        e.update(q=[q(a) for a in full["Q_sigma"]], r=[q(a) for a in full["R_sigma"]], dt=q(full["delta_t"]), sensors=len(sl))
        n, m, fd = 5, len(sl), {"k": "bott_f", "dt": q(full["delta_t"])}
        hd = {"k": "bott_h", "sx": [q(a.x) for a in sl], "sy": [q(a.y) for a in sl]}
        if "sensor_list" not in kw:
            hd = {"k": "bott_h", "sx": ["-20000", "20000", "-20000", "20000"], "sy": ["20000", "20000", "-20000", "-20000"]}
    else:
        n = m = rng.choice([4, 5, 6, 9])
        full = dict(Q_sigma=0.1, R_sigma=1, delta_t=0.05, F=8)
        kw = dict(Q_sigma=rng.choice([0.5, 2]), R_sigma=rng.choice([0.3, 4]), delta_t=rng.choice([0.01, 0.1, 0.05]), F=rng.choice([0.5, 2, 8, 5]))
        for k in list(kw):
            if rng.p.random() < .3:
                kw.pop(k)
        full.update(kw)
        F = full["F"]
        how = rng.choice(["made", "path", "path", "path", "missing"])
        if how != "path":
            n = m = min(n, 5)
            if i % 2:
                F = full["F"] = kw["F"] = rng.choice([0.5, 2])
        x0 = rng.vec(n)
        if how == "path":
            np.save("ic-%d.npy" % i, x0)
            kw["init_cond_path"] = "ic-%d.npy" % i
        elif how == "missing":
            kw["init_cond_path"] = "nothere-%d.npy" % i
        s, exc = guard(L96, dim=n, **kw)
        if not exc and how != "path":
            x0 = s.init_state.mean
            y, x = guard(np.load, "../log/L96_initial_condition_F_%s_dim_%d.npy" % (F, n))
            if x or V(y) != V(x0):
                exc = "NotSaved"
            if F in (0.5, 2):
                ev.append({"op": "spin", "exc": "", "n": n, "F": q(F), "v": V(x0)})
        e.update(n=n, q=[q(full["Q_sigma"])], r=[q(full["R_sigma"])], x0=V(x0))
        fd, hd = {"k": "l96_f", "dt": q(full["delta_t"]), "F": q(F)}, {"k": "l96_h"}
    e["exc"] = exc
    if not exc:
        e.update(sn=s.system_dim, sm=s.measurement_dim, Q=M(s.system_noise.cov), R=M(s.measurement_noise.cov), m0=V(s.init_state.mean), P0=M(s.init_state.cov))
    else:
        ev.append(e)
        return {"name": "%s-%d" % (kind, i), "ev": ev}
    ev.append(e)
    for _ in range(4):
        k = rng.choice([1, 1, 2, 3, 7])
        if kind == "bot":
            x = rng.r.randn(k, 4) * 8
        elif kind == "bott":
            x = rng.r.randn(k, 5) * np.array([5000, 200, 5000, 200, 0.2])
            for r in range(k):
                if rng.p.random() < .5:
                    x[r, 4] = rng.choice([0.0, 1e-9, -1e-7, 1e-5, 1e-4, -3e-4, 3e-3, -0.05, 1.5, -3, -0.0])
        if kind in ("bot", "bott") and rng.p.random() < .6:          # level with a sensor, straight above or below it, or on it
            px, py = (0, 1) if kind == "bot" else (0, 2)
            for r in range(k):
                a, b = rng.choice([(v.x, v.y) for v in sl])
                w = rng.choice(["level", "plumb", "on"])
                if w in ("level", "on"):
                    x[r, py] = b
                if w in ("plumb", "on"):
                    x[r, px] = a
        if kind in ("bot", "bott"):
            pass
        elif kind == "toy":
            x = rng.r.uniform(-9.9, 19.9, (k, 1))
        else:
            x = rng.r.randn(k, n) * rng.choice([1, 5, 20] if kind == "ungm" else [1, 5])
        tu = kind in ("ungm", "toy") or rng.p.random() < .5
        t, u = (rng.choice([0.0, 1, 2.5, 30, -4]), rng.choice([0.0, 1.0, -2])) if tu else (0.0, 0.0)
        ev.append(batch(rng, s, "transition", fd, x, n, t, u, tu))
        ev.append(batch(rng, s, "measurement", hd, x, m, t, u, rng.p.random() < .5))
    ev.append(dict(e, Q=M(s.system_noise.cov), R=M(s.measurement_noise.cov), m0=V(s.init_state.mean), P0=M(s.init_state.cov)))
    return {"name": "%s-%d" % (kind, i), "ev": ev}


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 15
    if prop == "C21":
        jobs = [sims] * (150 * k) + [draws] * (12 * k)
    else:
        jobs = [systems] * (130 * k)
    return {"TSys": {"cfg": "Trace.cfg", "runs": [f(Rng(seed * 7919 + i), i) for i, f in my(list(enumerate(jobs)), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
