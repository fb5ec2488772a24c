"""Model functions: python callables for the descriptors of spec/Funs.tla."""
from lib import *
import autograd.numpy as anp


def poly(rng, n, m, nl=0.3, td=False, lin=1.0, cross=True):
    c, A = rng.round(rng.vec(m)), rng.round(rng.r.randn(m, n) * lin)
    B = rng.round(rng.r.randn(m, n) * nl) * (nl != 0)
    X = rng.round(rng.vec(m) * nl) * (nl != 0) * (1.0 if cross and n > 1 else 0.0)
    T = rng.round(rng.vec(m)) * (1.0 if td else 0.0)
    U = rng.round(rng.vec(m)) * (1.0 if td else 0.0)
    return {"k": "poly", "c": c, "A": A, "B": B, "X": X, "T": T, "U": U,
            "W": rng.round(rng.vec(m) * 0.04 * lin) * (1.0 if td else 0.0)}


def desc(d):
    """descriptor as JSON"""
    o = {}
    for k, v in d.items():
        o[k] = v if isinstance(v, str) else (q(v) if np.ndim(v) == 0 else (V(v) if np.ndim(v) == 1 else M(v)))
    return o


def fn(d, style="plain"):
    """autograd-capable function of x (n,) or (batch, n); style 'batch' always answers with a batch (1, m)"""
    if d["k"] == "poly":
        c, A, B, X, T, U, W = (d[k] for k in "cABXTUW")

        def f(x, t=None, u=None, **kw):
            t_ = 0.0 if t is None else t
            u_ = 0.0 if u is None else (u if np.ndim(u) == 0 else float(np.sum(u)))
            if style == "batch":
                x = anp.atleast_2d(x)
            y = c + anp.dot(x, A.T) + anp.dot(x ** 2, B.T) + T * t_ + U * u_
            if np.any(X):
                y = y + (x[..., 0] * x[..., -1])[..., None] * X
            if (t_ + u_) and np.any(W):
                y = y + x[..., 0][..., None] * (W * (t_ + u_))
            return y
        return f
    if d["k"] == "trig":
        c, A, T = d["c"], d["A"], d["T"]

        def g(x, t=None, u=None, **kw):
            t_ = 0.0 if t is None else t
            if style == "batch":
                x = anp.atleast_2d(x)
            return c + anp.dot(anp.sin(x), A.T) + T * t_
        return g
    raise KeyError(d["k"])


class Spy:
    """records the points a function is evaluated at, one by one, and its values"""
    def __init__(self, f, n):
        self.f, self.n, self.pts, self.vals = f, n, [], []

    def __call__(self, x, *a, **k):
        y = self.f(x, *a, **k)
        xs = np.asarray(x, dtype=float).reshape(-1, self.n)
        ys = np.asarray(y, dtype=float).reshape(xs.shape[0], -1)
        self.pts += [V(r) for r in xs]
        self.vals += [V(r) for r in ys]
        return y


def whole(rng, u, N):
    """the input as it is given to the filters: a number, or a vector whose components act together"""
    if u is None or rng.p.random() < .5:
        return u
    k = rng.choice([1, 2, N, N])
    return np.array([u - 2.0 * (k - 1)] + [2.0] * (k - 1))
