"""Scores per physical component (C27) and plots (C28), for TShow."""
from models import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PolyCollection
from StateModel import Gaussian
from ExpectationPropagation.Nodes import build_nodes
from Utils import Plot_Helper as PH
import Experiments.EP_Sweep_BearingsOnly as BO
import Experiments.IEKS_Sweep_BearingsOnly as IB


def gauss(rng, n, nat_):
    m, S = rng.vec(n, rng.choice([1.0, 30.0])), rng.spd(n) * rng.choice([1.0, 0.01, 40.0])
    if nat_:
        P = np.linalg.inv(S)
        P = (P + P.T) / 2
        try:
            return Gaussian.from_natural(P, P @ m)
        except Exception:     # noqa
            pass
    return Gaussian(m, S)


def parts(rng, j):
    ev = []
    for _ in range(2):
        N = rng.choice([1, 2, 3, 6])
        nodes, gs, xs = build_nodes(N, 5), None, None
        for rep in range(3):                               # other marginals, another truth, or both, for the same nodes
            w = "both" if gs is None else rng.choice(["both", "marginals", "truth", "one"])
            if w in ("both", "marginals"):
                gs = [gauss(rng, 5, False) for _ in range(N)]
            elif w == "one":
                gs = gs[:-1] + [gauss(rng, 5, False)]
            if w in ("both", "truth"):
                xs = [g.mean.reshape(-1) + rng.vec(5, rng.choice([0.1, 1.0, 3.0])) for g in gs]
            for x, g in zip(nodes, gs):
                x.marginal = g
            if rng.choice([True, False]):
                given = rng.choice([lambda: [x.reshape(1, 5) for x in xs], lambda: tuple(x.reshape(1, 5) for x in xs), lambda: np.array(xs).reshape(N, 1, 5)])()
                v, exc = guard(BO.node_metrics, nodes, given)
            else:
                given = rng.choice([lambda: list(xs), lambda: np.array(xs)])()
                v, exc = guard(IB.componentwise_metrics, gs, given)
            ev.append({"op": "parts", "exc": exc, "gs": [mom(g) for g in gs], "xs": [V(x) for x in xs], "v": V(v) if not exc else []})
    return {"name": "parts-%d" % j, "ev": ev}


def band(pc):
    """points x -> lowest and highest y of a filled band"""
    at = {}
    for p in pc.get_paths():
        v = p.vertices[:-1] if len(p.vertices) > 1 else p.vertices
        for x, y in v:
            at.setdefault(float(x), []).append(float(y))
    return [[q(x), q(min(ys)), q(max(ys))] for x, ys in sorted(at.items())]


def artists(ax, seen):
    lines = [l for l in ax.get_lines() if id(l) not in seen]
    bands = [c for c in ax.collections if isinstance(c, PolyCollection) and id(c) not in seen]
    seen.update(id(x) for x in lines + bands)
    return ([[[q(float(x)), q(float(y))] for x, y in zip(np.ravel(l.get_xdata()), np.ravel(l.get_ydata()))] for l in lines], [band(b) for b in bands])


def plots(rng, j):
    ev, seen, keep = [], set(), []
    fig, shared = plt.subplots()
    for _ in range(3):
        what = rng.choice(["gaussian", "node", "runs"])
        N = rng.choice([1, 2, 3, 5, 12])
        own = rng.choice([True, False])
        e = {"op": "plot", "what": what, "axis": True, "lines": [], "bands": [], "kept": True}
        if what == "runs":
            R, T = rng.choice([1, 2, 3, 7]), N
            data = rng.r.randn(R, T) * rng.choice([1.0, 50.0]) + rng.choice([0.0, 10.0])
            if rng.r.rand() < 0.2 and R > 1:
                data[:] = data[:1]
            was = data.copy()
            e["data"] = M(data, R, T)
            kw = {} if own else {"ax": shared}
            if rng.r.rand() < 0.5:
                kw.update(label="a", c="C1", linewidth=2)
            ax, e["exc"] = guard(PH.plot_1d_data, data, **kw)
            e["kept"] = bool(np.array_equal(data, was))
            if not e["exc"]:
                e["axis"] = ax is not None and (own or ax is shared)
        else:
            gs = [gauss(rng, 1, rng.r.rand() < 0.4) for _ in range(N)]
            e["gs"] = [mom(g) for g in gs]
            if what == "gaussian":
                if own:
                    plt.figure()
                else:
                    plt.figure(fig.number)
                    plt.sca(shared)
                _, e["exc"] = guard(PH.plot_gaussian, gs, label=rng.choice([None, "x"]))
                ax = plt.gca()
            else:
                nodes = build_nodes(N, 1)
                for x, g in zip(nodes, gs):
                    x.marginal = g
                truth = rng.choice([None, rng.vec(N, 3.0), rng.vec(N, 3.0).reshape(N, 1)])
                t2 = None if truth is None else truth.copy()
                ax, e["exc"] = guard(PH.plot_gaussian_node, nodes, ground_truth=rng.choice([lambda: truth, lambda: truth if truth is None else list(truth.ravel())])(), **({} if own else {"ax": shared}))
                e["truth"] = [] if truth is None else V(t2)
                e["kept"] = truth is None or bool(np.array_equal(truth, t2))
                if not e["exc"]:
                    e["axis"] = ax is not None and (own or ax is shared)
            e["kept"] = e["kept"] and [mom(g) for g in gs] == e["gs"]
        if not e["exc"] and ax is not None:
            keep.append(ax)
            e["lines"], e["bands"] = artists(ax, seen)
        ev.append(e)
        if own and what != "gaussian":
            pass
    plt.close("all")
    return {"name": "plots-%d" % j, "ev": ev}


def run(prop, shard, nshards, seed, tier, gen):
    k = {"C27": (60, 1500), "C28": (80, 1200)}[prop][tier != "quick"]
    f = parts if prop == "C27" else plots
    return {"TShow": {"cfg": "Trace.cfg", "chunk": 40, "runs": [f(Rng(seed * 7919 + j), j) for j in my(range(k), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
