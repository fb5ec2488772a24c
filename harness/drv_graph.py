"""Factor graphs as they are built and equipped (C20), and the passes over them (C26)."""
from models import *
from StateModel import Gaussian
from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
from ExpectationPropagation.Nodes import Node, build_nodes, node_estimator, node_system
from ExpectationPropagation import Iterations
from drv_ep import bind

UPD = {"fwd": "fwd_update", "meas": "meas_update", "back": "back_update"}


class Asked:
    """an estimator that notes that it was asked, and refuses (or answers)"""
    def __init__(self, k, n, log, **settings):
        self.k, self.n, self.log, self.give = k, n, log, False
        self.__dict__.update(settings)

    def _ask(self, f, state):
        self.log.append({"e": self.k, "f": f})
        if self.give:
            return Gaussian(np.ones(self.n) * 0.5, np.eye(self.n) * 0.7)
        raise np.linalg.LinAlgError("no")

    def proj_trans(self, *a, **k):
        return self._ask("proj_trans", bind(a, k, ("func", "state"))[1])

    def proj_meas(self, *a, **k):
        return self._ask("proj_meas", bind(a, k, ("func", "state", "meas"))[1])

    def proj_back(self, *a, **k):
        return self._ask("proj_back", bind(a, k, ("func", "state"))[1])


def find(x, nodes):
    if x is None:
        return 0
    for i, y in enumerate(nodes):
        if x is y:
            return i + 1
    return -1


def belief(x, n):
    mg = copy.deepcopy(x.marginal)
    return {"m": V(mg.mean), "S": M(mg.cov, n, n), "fwd": nat(x.forward_factor), "meas": nat(x.measurement_factor), "back": nat(x.back_factor)}


def look(nodes, n, log, x0, has_est, has_sys):
    out = []
    for x in nodes:
        o = {"index": x.index, "prev": find(x.prev_node, nodes), "next": find(x.next_node, nodes), "dim": x.dim}
        o.update(belief(x, n))
        if has_est:
            o["p"], o["d"] = q(x.power), q(x.damping)
        if has_sys:
            o["tv"], _ = guard(lambda: V(x.trans_func(x0)))
            o["hv"], _ = guard(lambda: V(x.meas_func(x0)))
            o["y"] = V(x.meas)
            o["tv"], o["hv"] = o["tv"] or [], o["hv"] or []
        if has_est and has_sys:
            o["called"] = {}
            for k in UPD:
                del log[:]
                guard(getattr(x, UPD[k]))
                o["called"][k] = list(log)
        out.append(o)
    if has_sys and nodes:
        pr = getattr(nodes[0], "prior", None)
        out[0]["prior"] = [mom(pr)] if pr is not None else []
    return out


def sysm(rng, n, N):
    m = rng.choice([1, 2, 3])
    df, dh = poly(rng, n, n, 0.1, True), poly(rng, n, m, 0.1)
    s = DynamicSystemModel(n, m, fn(df), fn(dh), GaussianNoise(n), GaussianNoise(m), Gaussian(rng.vec(n), rng.spd(n)), dt=rng.choice([1, 0.5, 0.1, 2, 0.25, 0.03125, 1 / 3, 1.37]))
    ys = [rng.vec(m) for _ in range(N)]
    if rng.p.random() < .25:
        ys[rng.p.randrange(N)] = np.zeros(m)
    form = rng.choice(["list", "rows", "array", "cube"] + (["scalars"] if m == 1 else []))
    given = {"list": ys, "rows": [y.reshape(1, -1) for y in ys], "array": np.array(ys).reshape(N, m), "cube": np.array(ys).reshape(N, 1, m),
             "scalars": [float(y[0]) for y in ys]}[form]
    fargs, args = None, []
    if rng.p.random() < .4:
        fargs = [{"t": rng.choice([0.5, 3, -1.0]) + i, "u": rng.choice([0.25, -2.0])} for i in range(N)]
        args = [[q(a["t"]), q(a["u"])] for a in fargs]
    else:
        t = 0.0
        for i in range(N):
            args.append([q(t), "0"])
            t += s.dt
    x0 = np.arange(1, n + 1) / 3.0
    return s, given, fargs, x0, {"f": desc(df), "h": desc(dh), "x0": V(x0), "args": args, "ys": [V(y) for y in ys], "prior": mom(s.init_state)}


def single(rng, n):
    """one node with some of what a node can be given"""
    a, b = Node(n), Node(n)
    kw, want = {}, {"index": 0, "prev": 0, "next": 0, "fac": [], "marg": []}
    if rng.p.random() < .5:
        kw["index"] = want["index"] = rng.choice([0, 3, 17])
    if rng.p.random() < .6:
        kw["prev_node"], want["prev"] = rng.choice([(a, 1), (b, 2), (None, 0)])
    if rng.p.random() < .6:
        kw["next_node"], want["next"] = rng.choice([(a, 1), (b, 2), (None, 0)])
    if rng.p.random() < .5:
        g = [Gaussian.from_natural(rng.spd(n), rng.vec(n)) for _ in range(3)]
        kw["factor_init"] = rng.choice([tuple, list])(g)
        want["fac"] = [nat(x) for x in g]
    if rng.p.random() < .5:
        kw["marginal_init"] = g = Gaussian(rng.vec(n), rng.spd(n))
        want["marg"] = [mom(g)]
    names = ["index", "prev_node", "next_node", "factor_init", "marginal_init"]
    if all(k in kw for k in names[:3]) and rng.p.random() < .5:
        x, exc = guard(Node, n, *[kw.pop(k) for k in names[:3]], **kw)
    else:
        x, exc = guard(Node, n, **kw) if rng.p.random() < .5 else guard(Node, dim=n, **kw)
    e = {"op": "node", "exc": exc, "want": want}
    if not exc:
        e["got"] = dict(belief(x, n), index=x.index, prev=find(x.prev_node, [a, b]), next=find(x.next_node, [a, b]), dim=x.dim)
    return e


def graph(rng, j, hist):
    _, N, e0, s0 = hist[0]
    if rng.p.random() < .25:
        N = rng.choice([5, 8, 13, 13, 40])
    n = rng.choice([1, 2, 3])
    log = []
    sets = [dict(power=rng.choice([1, 0.5, 2]), damping=rng.choice([1, 0.3])), dict(power=rng.choice([1.0, 0.8]), damping=rng.choice([0.7, 1.0]))]
    if rng.p.random() < .3:
        sets[rng.p.randint(0, 1)] = {}
    ests = [Asked(k + 1, n, log, **s) for k, s in enumerate(sets)]
    syss = [sysm(rng, n, N) for _ in range(2)]
    x0 = syss[0][3]
    run = {"name": "graph-%d" % j, "n": n, "ests": [{"p": q(s.get("power", 1)), "d": q(s.get("damping", 1))} for s in sets], "syss": [s[4] for s in syss]}
    ev = []

    def equip(what, k, nodes):
        if what == "est":
            return node_estimator(nodes, ests[k - 1]) if rng.p.random() < .5 else node_estimator(nodes=nodes, estimator=ests[k - 1])
        s, given, fargs = syss[k - 1][:3]
        if fargs is None:
            return node_system(nodes, s, given) if rng.p.random() < .5 else node_system(nodes=nodes, system_model=s, measurements=given)
        return node_system(nodes, s, given, copy.deepcopy(fargs))
    he, hs, e = e0, s0, "" 
    kw = {}
    if e0:
        kw["estimator"] = ests[0]
    if s0 and syss[0][2] is None:
        kw.update(system=syss[0][0], measurements=syss[0][1])
    ev.append(single(rng, n))
    other = build_nodes(N, n)
    nodes, exc = guard(build_nodes, N, n, **kw) if rng.p.random() < .5 else guard(build_nodes, N=N, dim=n, **kw)
    if not exc and s0 and syss[0][2] is not None:
        nodes, exc = guard(equip, "sys", 1, nodes)
    ev.append({"op": "build", "N": N, "e": e0, "s": s0, "exc": exc, "same": True, "nodes": look(nodes, n, log, x0, he, hs) if not exc else []})
    for w, k in hist[1:]:
        if exc:
            break
        before = list(nodes)
        r, exc = guard(equip, w, k, nodes)
        he, hs = he or w == "est", hs or w == "sys"
        same = not exc and len(r) == len(before) and all(a is b for a, b in zip(r, before)) and all(a is b for a, b in zip(nodes, before))
        ev.append({"op": w, "k": k, "exc": exc, "same": bool(same), "nodes": look(r, n, log, x0, he, hs) if not exc else []})
    if he and hs and not exc:
        for a in ests:
            a.give = True
        i = rng.p.randint(1, N)
        k = rng.choice(["fwd", "meas"])
        _, exc = guard(getattr(nodes[i - 1], UPD[k]))
        if rng.p.random() < .5:
            _ = nodes[i - 1].marginal.mean, nodes[i - 1].marginal.cov
        for a in ests:
            a.give = False
        third = build_nodes(N, n)
        ev.append({"op": "touch", "i": i, "exc": exc, "same": True, "nodes": look(nodes, n, log, x0, True, True),
                   "others": [belief(x, n) for x in list(other) + list(third)]})
    run["ev"] = ev
    return run


PASS = {"filter": Iterations.kalman_filter, "smoother": Iterations.kalman_smoother, "sweep": Iterations.ep_fwd_back_updates, "update": Iterations.ep_update}


def sched(rng, j, N):
    ev = []
    a, z = (rng.choice([0, 1, 3]), rng.choice([0, 1, 2])) if rng.p.random() < .5 and N else (0, 0)
    chain = build_nodes(a + N + z, 1)                 # the pass may be over a part of the chain
    nodes = chain[a:a + N]

    fuse = [None, None]                               # an update that raises: after how many calls, and what

    def rec(i, k):
        def f(*a, **kw):
            ev.append({"op": "call", "i": i, "k": k})
            if fuse[0] is not None:
                fuse[0] -= 1
                if fuse[0] < 0:
                    fuse[0] = None
                    ev.append({"op": "raise"})
                    raise fuse[1]("update")
        return f
    for i, x in enumerate(chain):
        for k in UPD:
            setattr(x, UPD[k], rec(i + 1 - a if a <= i < a + N else 0, k))
    for _ in range(rng.choice([2, 3, 5])):
        p = rng.choice(list(PASS))
        before = list(nodes)
        ev.append({"op": "begin", "pass": p, "N": N})
        fuse[:] = [rng.p.randint(0, 2 * N), rng.choice([RuntimeError, ZeroDivisionError, ValueError])] if rng.p.random() < .3 else [None, None]
        mark = len(ev)
        _, exc = guard(PASS[p], nodes)
        cut = any(e["op"] == "raise" for e in ev[mark:])
        fuse[0] = None
        ev.append({"op": "end", "exc": exc, "cut": cut, "expect": fuse[1].__name__ if cut else "", "kept": len(before) == len(nodes) and all(a is b for a, b in zip(before, nodes))})
    return {"name": "sched-%d" % j, "ev": ev}


def run(prop, shard, nshards, seed, tier, gen):
    if prop == "C26":
        Ns = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17, 25, 40] * (6 if tier == "quick" else 60)
        if tier != "quick":
            Ns += [100, 300, 1000]
        return {"TSched": {"cfg": "Trace.cfg", "runs": [sched(Rng(seed * 7919 + j), j, N) for j, N in my(list(enumerate(Ns)), shard, nshards)]}}
    hs = json.load(open(os.path.join(gen, "equip.json"))) * (1 if tier == "quick" else 8)
    hs += [[["build", N, e, s]] + [["est", 1], ["sys", 1]][e:] for N in (1, 2, 5, 20) for e in (0, 1) for s in (0, 1)]
    return {"TGraph": {"cfg": "Trace.cfg", "runs": [graph(Rng(seed * 7919 + j), j, h) for j, h in my(list(enumerate(hs)), shard, nshards)]}}


if __name__ == "__main__":
    main(run)
