"""EP sweeps on linear-Gaussian chains, and the smoother on the same data, for TPost (C14, C17)."""
from models import *
from StateModel import Gaussian
from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
from MomentMatching import TaylorTransform, UnscentedTransform
from MomentMatching.Estimator import Estimator
from Filters.KalmanFilter import KalmanFilterSmoother
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from ExpectationPropagation import Iterations


class Faulty(Estimator):
    """an estimator whose projections fail when told to"""
    broken = False

    def proj_trans(self, *a, **k):
        if self.broken:
            raise np.linalg.LinAlgError("planted")
        return super().proj_trans(*a, **k)

    def proj_meas(self, *a, **k):
        if self.broken:
            raise np.linalg.LinAlgError("planted")
        return super().proj_meas(*a, **k)

    def proj_back(self, *a, **k):
        if self.broken:
            raise np.linalg.LinAlgError("planted")
        return super().proj_back(*a, **k)


def transform(rng, n):
    w = rng.choice(["TT", "UT", "UT"])
    if w == "TT":
        return TaylorTransform(dim=n)
    return UnscentedTransform(dim=n, alpha=rng.choice([1, 1, 0.7]), beta=rng.choice([2, 0]), kappa=rng.choice([1, 2, 3]))


def model(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    m = rng.choice([1, 1, 2, n])
    df = poly(rng, n, n, 0, rng.p.random() < .6, lin=0.6)
    if rng.p.random() < .3:
        df["A"] = np.eye(n) + (np.diag([0.1] * (n - 1), 1) if n > 1 else 0)
    dh = poly(rng, n, m, 0)
    sc = rng.choice([1, 1, 0.1])
    s = DynamicSystemModel(n, m, fn(df), fn(dh), GaussianNoise(n, rng.spd(n) * sc), GaussianNoise(m, rng.spd(m) * rng.choice([1, 0.3])),
                           Gaussian(rng.vec(n), rng.spd(n)), dt=rng.choice([1, 0.5, 2, 0.25, 1.37]))
    return s, {"f": desc(df), "h": desc(dh), "Q": M(s.system_noise.cov), "R": M(s.measurement_noise.cov)}, n, m


UPD = {"fwd": "fwd_update", "meas": "meas_update", "back": "back_update"}


def prec(a, b, k=1.0):
    return np.asarray(copy.deepcopy(a).precision) - k * np.asarray(copy.deepcopy(b).precision)


def one(rng, i, kind, hist=()):
    s, md, n, m = model(rng)
    N = (3 if kind == "sim3" else 7) if hist else rng.choice([1, 2, 3, 4, 6] if n < 3 else [1, 2, 4])
    N = min(N, 4) if kind == "damped" else N
    np.random.seed(rng.p.randint(0, 10**6))
    ys = [np.asarray(y, dtype=float) for _, y in s.simulate(N)]
    miss = rng.p.random() < .2
    if miss:                                          # observations that are missing
        for j in rng.p.sample(range(N), rng.p.randint(1, N)):
            ys[j] = np.array(ys[j], dtype=float).reshape(np.shape(ys[j]))
            ys[j].ravel()[rng.p.randrange(np.size(ys[j])):] = np.nan
    elif rng.p.random() < .15:
        ys[rng.p.randrange(N)] *= 0
    if kind == "fresh":
        p, d, k = rng.choice([1, 1.0, 0.5, 0.8, 2, 3, 1.3, 0.1, 0.25, 5]), rng.choice([1, 1.0]), 3
    elif kind == "damped":
        p, d = rng.choice([1, 1, 0.5, 0.8, 1.0]), rng.choice([0.8, 0.9, 0.7, 0.6])
        k = {0.6: 46, 0.7: 34, 0.8: 26, 0.9: 20}[d]
    else:
        p, d, k = rng.choice([1, 1, 0.5, 0.8, 0.25, 0.1]), 1, 2
    tr = transform(rng, n)
    mt = tr if rng.p.random() < .5 else transform(rng, n)
    est = Faulty(tr, mt, s.system_noise.cov, s.measurement_noise.cov, power=p, damping=d)
    nodes = node_system(node_estimator(build_nodes(N, n), est), s, ys)
    run = {"md": md, "prior": mom(s.init_state), "ys": [V(y) for y in ys], "ts": [q(j * s.dt) for j in range(N)], "u": "0", "p": q(p), "d": q(d)}
    ev, exc = [], ""
    for j, kd, o in hist:
        est.broken = o == "fail"
        _, x = guard(getattr(nodes[j - 1], UPD[kd]))
        exc = exc or x
    est.broken = False
    if kind == "damped" and rng.p.random() < .4:        # disturb it first
        for _ in range(4):
            guard(getattr(rng.choice(nodes), UPD[rng.choice(list(UPD))]))
    for j in range(1, k + 1):
        fn_ = Iterations.ep_fwd_back_updates if rng.p.random() < .6 else (lambda x: (Iterations.kalman_filter(x), Iterations.kalman_smoother(x)))
        _, x = guard(fn_, nodes)
        exc = exc or x
        if kind == "damped" and j < k:
            continue
        cavs = []
        if p > 1 and j > 1:
            cavs = [[M(prec(x.marginal, x.measurement_factor)), M(prec(x.marginal, x.back_factor))] for x in nodes]
        ev.append({"op": "sweep", "exc": exc, "want": "converged" if kind == "damped" else ("exact" if j == 1 else "fixed"), "cavs": cavs,
                   "tol": q(1e-6) if kind == "damped" or hist or (p > 1 and j > 1) else q(1e-7), "res": [mom(x.marginal) for x in nodes]})
    if miss:
        return dict(run, name="%s-%d" % (kind, i), ev=ev)
    ks, x = guard(lambda: (lambda f: f.kalman_smoother(f.kalman_filter(ys, u=0.0), u=0.0))(KalmanFilterSmoother(tr, s, mt)))
    ev.append({"op": "smooth", "exc": x, "want": "exact", "cavs": [], "tol": q(1e-7), "res": [mom(x) for x in ks] if not x else []})
    return dict(run, name="%s-%d" % (kind, i), ev=ev)


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 10
    jobs = [("fresh", ())] * (60 * k) + [("damped", ())] * (24 * k)
    if gen:
        jobs += [("sim3", h) for h in json.load(open(os.path.join(gen, "sim3.json")))[::18]]
        jobs += [("sim7", h) for h in json.load(open(os.path.join(gen, "sim7.json")))[::42]]
    if prop == "C17":
        jobs = jobs[:24 * k]
    return {"TPost": {"cfg": "Trace.cfg", "runs": [one(Rng(seed * 7919 + i), i, *j) for i, j in my(list(enumerate(jobs)), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
