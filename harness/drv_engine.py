"""Passes over EP chains with any model, power, damping and mixture of transforms, for TEngine (C29)."""
from models import *
import drv_kalman as K
from StateModel import Gaussian
from MomentMatching.Estimator import Estimator
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from ExpectationPropagation import Iterations
UPD = {"fwd": "fwd_update", "meas": "meas_update", "back": "back_update"}
PASSES = {"sweep": Iterations.ep_fwd_back_updates, "filter": Iterations.kalman_filter, "smoother": Iterations.kalman_smoother, "update": Iterations.ep_update}


def beliefs(nodes):
    return [{"marg": nat(x.marginal), "fwd": nat(x.forward_factor), "meas": nat(x.measurement_factor), "back": nat(x.back_factor)} for x in nodes]


def one(rng, i, tier):
    s, md, n, m = K.model(rng, rng.choice(["poly", "poly", "trig", "trig", "lin", "ungm", "ungm", "bot", "bott"]), htime=False)
    N = rng.choice([1, 2, 3, 4, 6] if n < 3 else [1, 2, 3]) if n > 1 or i % 9 else rng.choice([15, 25])
    dm, ys = K.header(rng, s, md, N)
    if rng.p.random() < .2:                       # observations that are missing
        for j in rng.p.sample(range(N), rng.p.randint(1, N)):
            ys[j] = np.array(ys[j], dtype=float)
            ys[j].ravel()[rng.p.randrange(np.size(ys[j])):] = np.nan
    tr, trd = K.transform(rng, n)
    mt, mtd = (tr, trd) if rng.p.random() < .5 else K.transform(rng, n)
    p = rng.choice([1, 1.0, 0.5, 0.8, 0.1, 0.3, 2, 1.5])
    d = rng.choice([1, 1.0, 0.8, 0.5, 35 / 127, 0.9])
    est = Estimator(tr, mt, s.system_noise.cov, s.measurement_noise.cov, power=p, damping=d)
    if rng.p.random() < .3:
        nodes = build_nodes(N, n, est, s, ys)
    else:
        nodes = node_system(node_estimator(build_nodes(N=N, dim=n), estimator=est), system_model=s, measurements=ys)
    if rng.p.random() < .25:                      # another chain from the same estimator and system, run in between
        other = node_system(node_estimator(build_nodes(N, n), est), s, [y + 0.5 for y in ys])
    else:
        other = None
    ev = []
    plan = rng.choice([["sweep"] * 4, ["sweep"] * 3, ["update"] * 3, ["filter", "smoother", "sweep", "update"], ["filter", "filter", "smoother", "smoother"], ["node"] * 10])
    if n > 3:
        plan = plan[:2] if plan[0] != "node" else plan
    for w in plan:
        e = {"what": w}
        if w == "node":
            j, k = rng.p.randint(1, N), rng.choice(["fwd", "fwd", "meas", "back"])
            e.update(i=j, k=k)
            _, e["exc"] = guard(getattr(nodes[j - 1], UPD[k]))
        else:
            _, e["exc"] = guard(PASSES[w], nodes)
        if other:
            guard(Iterations.ep_fwd_back_updates, other)
        e["nodes"] = beliefs(nodes)
        ev.append(e)
        if e["exc"]:
            break
    return {"name": "engine-%d" % i, "md": dm, "tr": trd, "mr": mtd, "prior": mom(s.init_state), "ys": [V(y) for y in ys],
            "ts": [q(j * s.dt) for j in range(N)], "p": q(p), "d": q(d), "ev": ev}


def fns(prop, shard, nshards, seed, tier, gen):
    k = 160 if tier == "quick" else 2500
    return {"TEngine": {"cfg": "Trace.cfg", "chunk": 20, "runs": [one(Rng(seed * 7919 + i), i, tier) for i in my(range(k), shard, nshards)]}}


if __name__ == "__main__":
    main(fns)
