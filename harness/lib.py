"""Shared by the drivers: exact logging of numbers, guarded calls, random inputs.  Runs under /repo's interpreter."""
import copy, json, os, random, sys, warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np                     # noqa: E402


def q(x):
    """exact numeral of a number"""
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    try:
        x = float(x)
        n, d = x.as_integer_ratio()
    except (OverflowError, ValueError):
        return "nan" if x != x else ("inf" if x > 0 else "-inf")
    except TypeError:
        return "notanumber"
    return str(n) if d == 1 else "%d/%d" % (n, d)


def V(a):
    """a vector, whatever its orientation: (n,), (1,n), (n,1)"""
    try:
        a = np.asarray(a, dtype=float)
    except Exception:
        return ["notanumber"]
    return [q(x) for x in a.ravel()]


def M(a, r=None, c=None):
    """a matrix; arrays that hold r*c numbers in another shape of the same order are accepted"""
    try:
        a = np.asarray(a, dtype=float)
    except Exception:
        return [["notanumber"]]
    if r is not None and a.size == r * c and a.ndim != 2:
        a = a.reshape(r, c)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if a.ndim > 2:
        a = np.squeeze(a)
        if a.ndim != 2:
            return [["shape%s" % (a.shape,)]]
    return [[q(x) for x in row] for row in a]


def rows(a, c):
    """a batch of vectors of length c"""
    a = np.asarray(a, dtype=float)
    if c and a.size % c == 0:
        a = a.reshape(-1, c)
    return M(a)


def guard(fn, *a, **k):
    """(result, "") or (None, exception name)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from scipy.linalg import LinAlgWarning
            warnings.filterwarnings("error", category=LinAlgWarning)
            return fn(*a, **k), ""
    except np.linalg.LinAlgError:
        return None, "LinAlgError"
    except Exception as x:      # noqa
        return None, type(x).__name__


def show(g, n=None):
    """what a Gaussian shows, each parameter read from a copy of its own so that reading does not disturb it"""
    n = n or 0
    d = {}
    for a in ("mean", "shift"):
        d[a] = V(getattr(copy.deepcopy(g), a))
    for a in ("cov", "precision"):
        m = np.asarray(getattr(copy.deepcopy(g), a), dtype=float)
        d[a] = M(m, len(d["mean"]), len(d["mean"]))
    return d


def nat(g):
    return {"h": V(copy.deepcopy(g).shift), "P": M(copy.deepcopy(g).precision, len(V(copy.deepcopy(g).shift)), len(V(copy.deepcopy(g).shift)))}


def mom(g):
    m = V(copy.deepcopy(g).mean)
    return {"m": m, "S": M(copy.deepcopy(g).cov, len(m), len(m))}


class Rng:
    """all random inputs; independent of numpy's global generator"""
    def __init__(self, seed):
        self.r = np.random.RandomState(seed % (2**32))
        self.p = random.Random(seed)
        self.w = random.Random(seed ^ 0x5EED)

    def lay(self, a):
        """the same numbers, sometimes stored column by column"""
        if self.w.random() < 0.25:       # (copies keep it; a strided view would round differently from its copy)
            return np.asfortranarray(a)
        return a

    def choice(self, xs):
        return self.p.choice(list(xs))

    def vec(self, n, s=1.0):
        return self.lay(self.r.randn(n) * s)

    def spd(self, n, lo=0.3, hi=3.0):
        """correlated, well conditioned"""
        qm, _ = np.linalg.qr(self.r.randn(n, n))
        ev = np.exp(self.r.uniform(np.log(lo), np.log(hi), n))
        a = (qm * ev) @ qm.T
        if self.w.random() < 0.06 and lo <= 1 and hi >= 1:          # whole numbers, stored as such
            a = np.eye(n, dtype=int) * (2 if hi >= 3 else 1)
            if hi >= 3 and n > 1:
                a[0, -1] = a[-1, 0] = self.w.choice([-1, 1])
            return a
        return self.lay((a + a.T) / 2)

    def sym(self, n):
        """indefinite for n > 1 (mostly), invertible"""
        qm, _ = np.linalg.qr(self.r.randn(n, n))
        ev = np.exp(self.r.uniform(-1, 1, n)) * self.r.choice([-1.0, 1.0], n)
        ev[0] = -abs(ev[0])
        a = (qm * ev) @ qm.T
        return self.lay((a + a.T) / 2)

    def round(self, x, k=3):
        return np.round(x, k)


def main(fns):
    prop, shard, nshards, seed, tier, gen, out = sys.argv[1:8]
    parts = fns(prop, int(shard), int(nshards), int(seed), tier, None if gen == "-" else gen)
    json.dump({"parts": parts}, open(out, "w"))


def my(items, shard, nshards):
    return [x for i, x in enumerate(items) if i % nshards == shard]
