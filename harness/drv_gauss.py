"""Histories of calls on StateModel.Gaussian, Utils.linalg and Utils.Metrics, for TGauss."""
from lib import *
from StateModel import Gaussian
from StateModel import GaussianFactor
from Utils.linalg import symmetrize, jittered_chol, jittered_solve, validate_covariance
from Utils import Metrics


class H:
    """one history: objects by number (from 1)"""
    def __init__(self, name):
        self.name, self.ev, self.o = name, [], []

    def new(self, ev, fn, given=None):
        if given:
            ev["given"] = [[q(x) for x in np.ravel(a)] for a in given]
        g, exc = guard(fn)
        s, exc2 = guard(show, g) if not exc else (None, exc)
        ev.update(exc=exc2, show=s if not exc2 else {"mean": [], "cov": [], "shift": [], "precision": []})
        if given:
            ev["givenafter"] = [[q(x) for x in np.ravel(a)] for a in given]
        self.ev.append(ev)
        self.o.append(g)
        return len(self.o)

    def mom(self, m, S):
        return self.new({"op": "mom", "m": V(m), "S": M(S)}, lambda: Gaussian(m, S), [m, S])

    def nat(self, P, h, cls=False):
        return self.new({"op": "nat", "P": M(P), "h": V(h)},
                        (lambda: Gaussian.from_natural(P, h)) if cls else (lambda: Gaussian(precision_mat=P, shift_vec=h)), [P, h])

    def factor(self, n, cls=False):
        return self.new({"op": "factor", "n": n}, (lambda: GaussianFactor(n)) if cls else (lambda: Gaussian.as_factor(n)))

    def marginal(self, n):
        return self.new({"op": "marginal", "n": n}, lambda: Gaussian.as_marginal(n))

    def mul(self, a, b):
        return self.new({"op": "mul", "a": a, "b": b}, lambda: self.o[a-1] * self.o[b-1])

    def div(self, a, b):
        return self.new({"op": "div", "a": a, "b": b}, lambda: self.o[a-1] / self.o[b-1])

    def pow(self, a, c):
        return self.new({"op": "pow", "a": a, "c": q(c)}, lambda: self.o[a-1] ** c)

    def copy(self, a):
        return self.new({"op": "copy", "a": a}, lambda: self.o[a-1].copy())

    def read(self, a, attr):
        name = {"chol": "chol_cov"}.get(attr, attr)
        v, exc = guard(lambda: getattr(self.o[a-1], name))
        n = guard(lambda: copy.deepcopy(self.o[a-1]).dim)[0] or 1
        if exc:
            v = [] if attr != "dim" else 0
        elif attr == "dim":
            v = int(v)
        elif attr in ("mean", "shift"):
            v = V(v)
        else:
            v = M(v, n, n)
        self.ev.append({"op": "read", "a": a, "attr": attr, "v": v, "exc": exc})

    def touch(self, a, what, rng):
        """calls whose result is not the point"""
        g = self.o[a-1]
        n = copy.deepcopy(g).dim
        if what == "sample":
            np.random.seed(3)
            guard(g.sample, 3)
        elif what == "nll":
            guard(g.nll, np.zeros(n))
        elif what == "sqerr":
            guard(g.squared_error, np.ones(n))
        elif what == "str":
            guard(str, g)
            guard(repr, g)
        elif what == "eq":
            guard(lambda: g == g)
        elif what == "mulself":
            guard(lambda: g * g)
        elif what == "divself":
            guard(lambda: g / g)
        elif what == "pow":
            guard(lambda: g ** 0.5)
        elif what == "copy":
            guard(lambda: g.copy().precision)
        elif what == "use":
            c = g.copy()
            guard(lambda: (c * g).mean)

    def nll(self, a, x):
        v, exc = guard(lambda: float(np.squeeze(self.o[a-1].nll(x))))
        self.ev.append({"op": "nll", "a": a, "x": V(x), "v": q(v) if not exc else "", "exc": exc})

    def se(self, a, x):
        v, exc = guard(lambda: float(np.squeeze(self.o[a-1].squared_error(x))))
        self.ev.append({"op": "se", "a": a, "x": V(x), "v": q(v) if not exc else "", "exc": exc})

    def assign(self, a, m=None, S=None):
        """new parameters for an object in moment form"""
        g = self.o[a-1]
        if m is not None:
            g.mean = np.array(m)
        if S is not None:
            g.cov = np.array(S)
        d = copy.deepcopy(g)
        self.ev.append({"op": "assign", "a": a, "m": V(m if m is not None else d.mean), "S": M(S if S is not None else d.cov)})

    def eq(self, a, b):
        v, exc = guard(lambda: bool(self.o[a-1] == self.o[b-1]))
        self.ev.append({"op": "eq", "a": a, "b": b, "v": bool(v), "exc": exc})

    def metric(self, what, via, a, xs):
        states = [self.o[i-1] for i in a]

        class N:
            def __init__(self, g):
                self.marginal = g
        if via == "nodes":
            f = lambda: Metrics.node_metrics([N(g) for g in states], xs)[0 if what == "rmse" else 1]
        else:
            f = lambda: (Metrics.rmse if what == "rmse" else Metrics.nll)(states, xs)
        v, exc = guard(lambda: float(np.squeeze(f())))
        self.ev.append({"op": "metric", "what": what, "a": a, "x": [V(x) for x in xs], "v": q(v) if not exc else "", "exc": exc})

    def sample(self, a, n, seed):
        np.random.seed(seed)
        v, exc = guard(lambda: self.o[a-1].sample(n))
        np.random.seed(seed)
        w, exc2 = guard(lambda: copy.deepcopy(self.o[a-1]).sample(n))
        d = copy.deepcopy(self.o[a-1]).dim
        self.ev.append({"op": "sample", "a": a, "n": n, "v": rows(v, d) if not exc else [], "again": rows(w, d) if not exc2 else [], "exc": exc or exc2})

    def done(self):
        return {"name": self.name, "ev": self.ev}


def some(h, rng, n, kinds=("mom", "nat", "imp", "factor", "marginal", "semi", "scaled")):
    k = rng.choice(kinds)
    if k == "mom":
        return h.mom(rng.vec(n, rng.choice([1, 30, 0.01])), rng.spd(n))
    if k == "scaled":
        s = np.diag(np.exp(rng.r.uniform(-5, 5, n)))
        return h.mom(rng.vec(n, 100), s @ rng.spd(n) @ s)
    if k == "nat":
        return h.nat(rng.spd(n), rng.vec(n), cls=rng.choice([True, False]))
    if k == "imp":
        return h.nat(rng.sym(n), rng.vec(n))
    if k == "impmom":
        return h.mom(rng.vec(n), rng.sym(n))
    if k == "semi":       # flat in all but one direction
        v = rng.vec(n)
        return h.nat(np.outer(v, v) + (0.01 if n > 1 else 0) * np.eye(n), rng.vec(n))
    if k == "factor":
        return h.factor(n, cls=rng.choice([True, False]))
    return h.marginal(n)


POWERS = [1, 2, 0, -1, 0.5, 1.0, 0.8, 1 / 0.3, -0.7, 3, 10, 0.1, 1 / 3, 7.25]


def algebra(rng, i):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 7]) if i % 29 != 11 else rng.choice([10, 12, 16])
    h = H("algebra-%d-n%d" % (i, n))
    for _ in range(rng.choice([2, 3, 4])):
        some(h, rng, n)
    if i % 4 == 1:
        some(h, rng, n, ("impmom",))
    if i % 3 == 0:                                    # operands that share one of their parameters
        S, P, m = rng.spd(n), rng.spd(n), rng.vec(n)
        x = [h.mom(m, S), h.mom(rng.vec(n), S), h.nat(P, rng.vec(n)), h.nat(P, rng.vec(n)), h.mom(m, rng.spd(n))]
        for a, b in ((x[0], x[1]), (x[2], x[3]), (x[0], x[4])):
            h.div(a, b)
            h.mul(len(h.o), b)
        h.nat(-P, rng.vec(n))
        h.mul(len(h.o), x[2])
        h.div(x[0], h.copy(x[0]))
    for _ in range(rng.choice([3, 6, 10])):
        k = rng.choice(["mul", "div", "pow", "mul", "div", "pow", "copy"])
        a, b = rng.p.randint(1, len(h.o)), rng.p.randint(1, len(h.o))
        if rng.p.random() < 0.15:
            b = a
        if rng.p.random() < 0.3:
            h.read(a, rng.choice(["mean", "cov", "precision", "shift"]))
        if k == "mul":
            h.mul(a, b)
        elif k == "div":
            h.div(a, b)
        elif k == "pow":
            h.pow(a, rng.choice(POWERS))
        else:
            h.copy(a)
        if rng.p.random() < 0.3:
            for x in {a, b}:
                h.read(x, rng.choice(["mean", "cov", "precision", "shift"]))
    for a in range(1, len(h.o) + 1):
        for attr in ("precision", "shift", "cov", "mean"):
            h.read(a, attr)
    return h.done()


def epform(rng, i):
    """the shapes EP makes: cavity = marginal / factor^(1/p), factor^(1-d) * state^d, ratios of nearly equal marginals"""
    n = rng.choice([1, 2, 4, 5])
    p, d = rng.choice([1, 0.1, 0.5, 0.9, 1.0, 0.3]), rng.choice([1, 0.2, 0.8, 1.0, 0.5])
    h = H("epform-%d-n%d-p%s-d%s" % (i, n, p, d))
    marg = h.marginal(n) if i % 2 else h.mom(rng.vec(n), rng.spd(n))
    fac = h.factor(n)
    for _ in range(3):
        cav = h.div(marg, h.pow(fac, 1 / p))
        st = h.mom(rng.vec(n), rng.spd(n, 0.1, 1))
        new = h.mul(h.pow(fac, 1 - d), h.pow(st, d))
        marg2 = h.mul(marg, h.pow(h.div(new, fac), 1 / p))
        h.read(marg2, rng.choice(["cov", "mean"]))
        fac, marg = new, marg2
        h.div(marg, marg)
        h.mul(cav, fac)
    return h.done()


def moments(rng, i):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if i % 29 != 11 else rng.choice([12, 12, 20])
    h = H("moments-%d-n%d" % (i, n))
    kind = i % 10
    if kind == 0:
        h.mom(rng.vec(n, 10), rng.spd(n, 1e-3, 1e3))
    elif kind == 1:
        h.nat(rng.spd(n, 1e-3, 1e3), rng.vec(n, 10))
    elif kind == 2:
        h.nat(rng.sym(n), rng.vec(n))
    elif kind == 3:                                   # around the flat threshold
        t = rng.choice([0.0, 1e-12, 3e-11, 9e-11, 1.5e-10, 1e-9, 1e-8])
        h.nat(np.eye(n) * t / n, rng.vec(n, rng.choice([0, 1e-10, 1e-6])))
    elif kind == 4:                                   # negative precision must not pose as flat
        t = rng.choice([-1e-9, -1e-6, -0.5, -3.0, -1e-8])
        h.nat(np.eye(n) * t, rng.vec(n))
    elif kind == 5:                                   # trace zero but not flat
        dg = rng.vec(n) + 0.5
        if n > 1:
            dg[0] = -dg[1:].sum()
        P = np.diag(dg)
        if n > 1 and i % 20 == 5:                     # nothing on the diagonal, yet not zero
            P = rng.sym(n) * rng.choice([1, 1e-6, 1e3])
            P[np.diag_indices(n)] = 0
        h.nat(P, rng.vec(n))
    elif kind == 6:
        s = np.diag(10.0 ** rng.r.uniform(-4, 4, n))
        h.mom(rng.vec(n, 1000), s @ rng.spd(n, 0.5, 2) @ s)
    elif kind == 7:
        s = np.diag(10.0 ** rng.r.uniform(-4, 4, n))
        h.nat(s @ rng.spd(n, 0.5, 2) @ s, s @ rng.vec(n))
    elif kind == 8:                                   # integers and lists
        h.new({"op": "mom", "m": V(np.arange(n)), "S": M(np.eye(n, dtype=int) * 2)},
              lambda: Gaussian(list(range(n)), np.eye(n, dtype=int) * 2))
        h.nat(np.eye(n, dtype=int) * 3, np.arange(n))
        if n == 1:
            h.new({"op": "mom", "m": ["3/2"], "S": [["2"]]}, lambda: Gaussian(1.5, np.array([[2.0]])))
    else:
        h.mom(rng.vec(n), 1e10 * np.eye(n))
        h.nat(1e-10 * np.eye(n) * rng.choice([2, 5]), rng.vec(n, 1e-9))
        h.marginal(n)
        h.factor(n)
    for a in range(1, len(h.o) + 1):
        for attr in rng.choice([["mean", "cov", "precision", "shift"], ["shift", "precision", "cov", "mean"], ["precision", "mean", "shift", "cov"]]):
            h.read(a, attr)
    # there and back
    a = 1
    g = h.o[0]
    if guard(lambda: np.linalg.cholesky(copy.deepcopy(g).cov))[1] == "":
        h.nat(np.array(copy.deepcopy(g).precision), np.array(copy.deepcopy(g).shift))
        h.mom(np.array(copy.deepcopy(g).mean), np.array(copy.deepcopy(g).cov))
    return h.done()


KINDS3 = ("mom", "nat", "imp", "factor", "marginal")


def access(rng, i, seq, kind):
    """one access history enumerated by the specification (GObj)"""
    n = 1 + (i % 3)
    h = H("access-%d-%s-%s" % (i, kind, "".join(x[0] for x in seq)))
    a = some(h, rng, n, (kind,))
    for x in seq:
        if x in ("mean", "cov", "precision", "shift", "chol", "dim"):
            h.read(a, x)
        else:
            h.touch(a, x, rng)
    b = h.copy(a)
    for x in ("precision", "cov", "shift", "mean"):
        h.read(a, x)
        h.read(b, x)
    return h.done()


def shared(rng, i):
    """many objects made from one another, read in random order, arrays watched"""
    n = rng.choice([1, 2, 3])
    h = H("shared-%d" % i)
    m, S, P, s = rng.vec(n), rng.spd(n), rng.spd(n), rng.vec(n)
    h.mom(m, S)
    h.nat(P, s)
    for k in rng.p.sample(["factor", "marginal", "imp", "semi"], 2):
        some(h, rng, n, (k,))
    given = [[q(x) for x in np.ravel(a)] for a in (m, S, P, s)]
    for _ in range(12):
        a, b = rng.p.randint(1, len(h.o)), rng.p.randint(1, len(h.o))
        k = rng.choice(["mul", "div", "pow", "copy", "read", "read", "read", "touch", "touch"])
        if k == "read":
            h.read(a, rng.choice(["mean", "cov", "precision", "shift", "dim", "chol"]))
        elif k == "touch":
            h.touch(a, rng.choice(["sample", "nll", "sqerr", "str", "eq", "mulself", "divself", "pow", "copy", "use"]), rng)
        elif k == "pow":
            h.pow(a, rng.choice([1, 0.5, 2, 1.0]))
        elif k == "copy":
            h.copy(a)
        else:
            getattr(h, k)(a, b)
    for a in range(1, len(h.o) + 1):
        for x in rng.p.sample(["mean", "cov", "precision", "shift"], 4):
            h.read(a, x)
    h.ev.append({"op": "arrays", "given": given, "now": [[q(x) for x in np.ravel(a)] for a in (m, S, P, s)]})
    return h.done()


def linear(rng, i):
    n = rng.choice([1, 2, 3, 4, 6])
    h = H("linalg-%d" % i)
    kind = i % 6
    A = [rng.spd(n), rng.sym(n), rng.spd(n) + 0.3 * rng.r.randn(n, n), rng.spd(n) * 10.0 ** rng.choice([-6, 6]),
         np.outer(np.arange(1, n + 1.0), np.arange(1, n + 1.0)), rng.spd(n)][kind]
    A = np.array(A)

    def ev(op, fn, **kw):
        e = {"op": op, "A": M(A)}
        e.update(kw)
        v, exc = guard(fn)
        e.update(v=M(v) if not exc and v is not None else [], exc=exc, after=M(A))
        h.ev.append(e)
    ev("symmetrize", lambda: symmetrize(A))
    ev("validate", lambda: validate_covariance(Gaussian(np.zeros(n), symmetrize(np.array(A)))))
    h.ev[-1]["A"] = h.ev[-1]["after"] = M((A + A.T) / 2)
    B = symmetrize(rng.spd(n))                        # not finite: not positive definite
    j, k = rng.p.randrange(n), rng.p.randrange(n)
    B[j, k] = B[k, j] = [np.nan, np.inf, -np.inf][i % 3]
    _, exc = guard(validate_covariance, Gaussian(np.zeros(n), B))
    h.ev.append({"op": "notfinite", "n": n, "exc": exc})
    for jit in (None, 1e-3, 0.5, 0.0, 0, 20):
        j = q(1e-10 if jit is None else jit)
        for low in (True, False):
            ev("chol", lambda: jittered_chol(A, jitter=jit, lower=low) if jit is not None else jittered_chol(A, lower=low), jit=j, lower=low)
        one = rng.p.random() < .3                      # a single right-hand side, as a vector
        b = rng.r.randn(n) if one else rng.r.randn(n, rng.choice([1, n, 2]))
        b0 = M(b.reshape(n, -1))
        for aa in ("gen", "pos", "sym"):
            if aa == "pos" and np.linalg.eigvalsh((A + A.T) / 2 + np.eye(n) * (jit or 1e-10))[0] < 1e-6 and kind != 1:
                continue
            kw = {} if jit is None else {"jitter": jit}
            def solve():
                v = np.asarray(jittered_solve(A, b, assume_a=aa, **kw))
                return v.reshape(n, -1) if one and v.shape == (n,) else v
            ev("solve", solve, jit=j, b=b0)
            h.ev[-1]["bafter"] = M(b.reshape(n, -1))
    if rng.p.random() < 0.5:
        v, exc = guard(jittered_chol, A)
        h.ev.append({"op": "chol", "A": M(A), "v": M(v) if not exc else [], "exc": exc, "after": M(A), "jit": q(1e-10), "lower": True})
    return h.done()


def scores(rng, i):
    n = rng.choice([1, 2, 3, 5])
    h = H("scores-%d-n%d" % (i, n))
    for _ in range(3):
        some(h, rng, n, ("mom", "nat", "scaled"))
    if n == 5:
        h.mom(rng.vec(5, 100), np.diag([100.0, 10, 100, 10, 1e-3]))
    N = len(h.o)
    for a in range(1, N + 1):
        x = rng.vec(n, rng.choice([1, 5]))
        h.nll(a, x)
        h.nll(a, x.reshape(1, -1))
        h.se(a, x)
        h.se(a, x.reshape(1, -1))
        h.nll(a, np.zeros(n))
        h.se(a, np.zeros(n))
        h.nll(a, np.array(copy.deepcopy(h.o[a-1]).mean))
        h.se(a, np.array(copy.deepcopy(h.o[a-1]).mean))
    g = h.o[0]
    m0, S0 = np.array(g.mean), np.array(g.cov)
    for dm, ds in ((1e-5, 0), (0, 1e-5), (0.3, 0), (0, 0.2), (0, 0), (5e-4, 0), (0, 5e-4), (-4e-3, 0), (0, 4e-3), (2e-3, 0), (0, 2e-3)):
        m1, S1 = m0.copy(), S0.copy()
        m1[-1] += dm * (1 + abs(m1[-1]))
        S1[-1, -1] += ds * (1 + abs(S1[-1, -1]))
        b = h.mom(m1, S1)
        h.eq(1, b)
        h.eq(b, 1)
    if n > 1:                                          # differs only off the diagonal
        S1 = S0.copy()
        S1[0, 1] += 0.2
        S1[1, 0] += 0.2
        h.eq(1, h.mom(m0.copy(), S1))
    h.eq(1, 1)
    h.eq(1, h.copy(1))
    h.eq(1, h.nat(np.array(g.precision), np.array(g.shift)))
    ids = [rng.p.randint(1, N) for _ in range(rng.choice([1, 2, 5, 9]))]
    xs = [rng.vec(n) * (rng.p.random() < .85) for _ in ids]
    if rng.p.random() < .3:                           # true values beyond those of the states
        xs += [rng.vec(n) for _ in range(rng.p.randint(1, 3))]
    if rng.p.random() < 0.5:
        xs = [x.reshape(1, -1) for x in xs]
    if rng.p.random() < 0.4:
        xs = tuple(xs)
    for what in ("rmse", "nll"):
        for via in ("list", "nodes"):
            h.metric(what, via, ids, xs)
    for a in range(1, N + 1):
        h.sample(a, 1, 5 + i)
        h.sample(a, 6, 5 + i)
        for x in ("mean", "cov"):
            h.read(a, x)
    if i % 2 == 0:
        h.sample(rng.p.randint(1, N), 900, 11 + i)
    # an object in moment form whose mean or covariance is assigned afresh is scored as what it is now
    a = h.mom(rng.vec(n), rng.spd(n))
    b = h.mom(np.array(h.o[a-1].mean), np.array(h.o[a-1].cov))
    for j in range(3):
        x = rng.vec(n, 2)
        h.nll(a, x)
        h.se(a, x)
        if rng.p.random() < .5:
            h.touch(a, rng.choice(["sample", "str", "eq", "use"]), rng)
            guard(lambda: h.o[a-1].chol_cov)
        h.assign(a, rng.vec(n) if j != 1 else None, rng.spd(n) if j != 0 else None)
        h.nll(a, x)
        h.se(a, x)
        h.eq(a, b)
        h.sample(a, 3, i)
        for via in ("list", "nodes"):
            h.metric("nll", via, [a, b], [x, x])
            h.metric("rmse", via, [a, b], [x, x])
    # coordinates known exactly: the density of the others
    if n > 1:
        S = rng.spd(n)
        z = rng.p.sample(range(n), rng.p.randint(1, n - 1))
        S[z, :] = 0
        S[:, z] = 0
        m = rng.vec(n)
        a = h.mom(m, S)
        for _ in range(2):
            x = rng.vec(n)
            x[z] = m[z]
            h.nll(a, x)
            h.ev[-1]["op"] = "nlldeg"
    return h.done()


def run(prop, shard, nshards, seed, tier, gen):
    k = 1 if tier == "quick" else 12
    runs = []
    if prop == "C01":
        for i in my(range(90 * k), shard, nshards):
            runs.append(algebra(Rng(seed * 7919 + i), i))
        for i in my(range(40 * k), shard, nshards):
            runs.append(epform(Rng(seed * 104729 + i), i))
    elif prop == "C02":
        for i in my(range(300 * k), shard, nshards):
            runs.append(moments(Rng(seed * 7919 + i), i))
        for i in my(range(20 * k), shard, nshards):
            runs.append(algebra(Rng(seed * 15485863 + i), i))
    elif prop == "C03":
        seqs = json.load(open(os.path.join(gen, "access.json")))
        for i, sq in my(list(enumerate(seqs)), shard, nshards):
            runs.append(access(Rng(seed * 31 + i), i, sq, KINDS3[i % len(KINDS3)]))
        for i in my(range(60 * k), shard, nshards):
            runs.append(shared(Rng(seed * 7919 + i), i))
    elif prop == "C04":
        for i in my(range(60 * k), shard, nshards):
            runs.append(linear(Rng(seed * 7919 + i), i))
    elif prop == "C05":
        for i in my(range(40 * k), shard, nshards):
            runs.append(scores(Rng(seed * 7919 + i), i))
    return {"TGauss": {"cfg": "Trace.cfg", "runs": runs}}


if __name__ == "__main__":
    main(run)
