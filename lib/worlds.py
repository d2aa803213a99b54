"""Deterministic finite input alphabet: weights matrices and data worlds.

Nothing here uses spreg.  A `World` is a complete input for every estimator.
"""
import numpy as np
from libpysal import weights


def _coords(a, b, jit=0.31):
    rs = np.random.RandomState(7 * a + b)
    g = np.array([(i, j) for i in range(a) for j in range(b)], float)
    return g + jit * (rs.rand(a * b, 2) - 0.5)


def lat(a, b, queen=False):
    return weights.lat2W(a, b, rook=not queen)


def knn_w(a, b, k=3):
    return weights.KNN.from_array(_coords(a, b), k=k)


def from_adj(A, ids=None):
    """W from a dense matrix (zero = no link), ids optional list giving id of each row in order"""
    n = A.shape[0]
    ids = list(range(n)) if ids is None else list(ids)
    nb, wt = {}, {}
    for i in range(n):
        js = np.nonzero(A[i])[0]
        nb[ids[i]] = [ids[j] for j in js]
        wt[ids[i]] = [float(A[i, j]) for j in js]
    return weights.W(nb, wt, id_order=ids, silence_warnings=True)


def make_w(kind):
    """A fresh weights object of the named kind."""
    name, _, size = kind.partition(":")
    a, b = (int(s) for s in (size or "5x5").split("x"))
    n = a * b
    if name == "rook":          # row-standardised rook
        w = lat(a, b); w.transform = "r"; return w
    if name == "rookb":         # binary rook (spectral radius > 1)
        w = lat(a, b); return w
    if name == "rooks":         # rook scaled to max row sum 1 (symmetric, not row-standardised)
        A = lat(a, b).full()[0]; return from_adj(A / A.sum(1).max())
    if name == "queen":
        w = lat(a, b, True); w.transform = "r"; return w
    if name == "knn":           # asymmetric
        w = knn_w(a, b); w.transform = "r"; return w
    if name == "ring":
        A = np.zeros((n, n))
        for i in range(n):
            A[i, (i + 1) % n] = 1; A[i, (i - 1) % n] = 1
        w = from_adj(A); w.transform = "r"; return w
    if name == "odd":           # irregular asymmetric, non-standardised general weights, row sums < 1
        rs = np.random.RandomState(n)
        A = knn_w(a, b, 4).full()[0] * (0.05 + 0.2 * rs.rand(n, n))
        return from_adj(A)
    if name == "isl":           # two islands
        A = lat(a, b).full()[0]
        for i in (3, n - 2):
            A[i, :] = 0; A[:, i] = 0
        w = from_adj(A); w.transform = "r"; return w
    if name == "strid":         # string ids whose sorted order differs from the data order
        A = lat(a, b, True).full()[0]
        ids = ["z%03d" % ((i * 7 + 3) % n) for i in range(n)] if n % 7 else ["z%03d" % ((i * 5 + 3) % n) for i in range(n)]
        w = from_adj(A, ids); w.transform = "r"; return w
    raise KeyError(kind)


def dense(w):
    """Dense matrix in id order, built from the neighbour dictionaries only."""
    ids = list(w.id_order)
    pos = {k: i for i, k in enumerate(ids)}
    A = np.zeros((len(ids), len(ids)))
    nb, wt = w.neighbors, w.weights
    for k in ids:
        for m, v in zip(nb[k], wt[k]):
            A[pos[k], pos[m]] = v
    return A


def snapshot_w(w):
    return (str(w.transform), tuple(w.id_order), tuple((k, tuple(w.neighbors[k]), tuple(w.weights[k])) for k in w.id_order))


def kernel_w(a, b, k=4, fn="triangular"):
    """A kernel weights object acceptable to HAC estimation (unit diagonal)"""
    kw = weights.Kernel(_coords(a, b), k=k, function=fn, fixed=False, diagonal=True)
    return kw


class World(object):
    """y, x (n,k), yend (n,e), q (n,m), w, W dense, regimes, coords, gwk"""

    def __init__(self, wkind="rook:5x5", k=2, e=1, m=2, seed=0, rho=0.4, lam=0.0, noise=1.0, beta=None):
        self.wkind = wkind
        self.w = make_w(wkind)
        self.W = dense(self.w)
        n = self.n = self.W.shape[0]
        size = (wkind.split(":") + ["5x5"])[1]
        self.a, self.b = (int(s) for s in size.split("x"))
        rs = np.random.RandomState(1000 + seed)
        self.x = 3 * rs.rand(n, k) + rs.randn(n, k) * 0.5 + np.arange(k)
        self.q = 2 * rs.rand(n, max(m, 1)) + 0.3 * rs.randn(n, max(m, 1))
        eps = noise * rs.randn(n, 1) * (0.6 + 0.5 * rs.rand(n, 1))
        v = noise * rs.randn(n, max(e, 1))
        pi = 0.8 + 0.4 * np.arange(max(m, 1) * max(e, 1)).reshape(max(m, 1), max(e, 1)) % 1.7
        self.yend = self.q @ pi + 0.6 * eps + v
        if m == 0:
            self.q = self.q[:, :0]
        if e == 0:
            self.yend = self.yend[:, :0]
        self.beta = np.array([[1.5], [1.2], [-0.9], [0.5], [0.8], [-0.4], [0.6], [-0.7]])[:k + 1] if beta is None else np.asarray(beta, float).reshape(-1, 1)
        I = np.eye(n)
        err = np.linalg.solve(I - lam * self.W, eps) if lam else eps
        mu = self.beta[0] + self.x @ self.beta[1:]
        if e:
            mu = mu + 0.7 * self.yend[:, :1]
        self.y = np.linalg.solve(I - rho * self.W, mu + err) if rho else mu + err
        self.X = np.hstack([np.ones((n, 1)), self.x])

    def regimes(self, kind="alt"):
        """list of regime labels"""
        n = self.n
        if kind == "alt":
            return [i % 2 for i in range(n)]
        if kind == "half":
            return [0 if i < n // 2 else 1 for i in range(n)]
        if kind == "rhalf":       # first observations carry the larger label
            return [1 if i < n // 2 else 0 for i in range(n)]
        if kind == "col":         # contiguous columns
            return [0 if (i % self.b) < self.b // 2 else 1 for i in range(n)]
        if kind == "three":
            return [(i * i + i // 3) % 3 for i in range(n)]
        if kind == "three_s":     # strings; first appearance order differs from sorted order
            return ["cab"[(i * i + i // 3) % 3] for i in range(n)]
        raise KeyError(kind)

    def kernel(self, k=4, fn="triangular"):
        return kernel_w(self.a, self.b, k, fn)


def names(prefix, k):
    return ["%s%d" % (prefix, i + 1) for i in range(k)]
