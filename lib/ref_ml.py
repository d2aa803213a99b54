"""Reference model of the maximum likelihood lag / error models (dense, exact)."""
import numpy as np
import numpy.linalg as la
from ref import Box, sc


def logdet(W, r):
    s, l = la.slogdet(np.eye(len(W)) - r * W)
    return l


def lag_ll(y, X, W, rho):
    """exact concentrated log likelihood of y = rho W y + X b + e"""
    n = len(y)
    ys = y - rho * (W @ y)
    b = la.lstsq(X, ys, rcond=None)[0]
    e = ys - X @ b
    s2 = sc(e.T @ e) / n
    return -n / 2 * np.log(2 * np.pi) - n / 2 * np.log(s2) - n / 2 + logdet(W, rho), b, e, s2


def err_ll(y, X, W, lam):
    n = len(y)
    ys, Xs = y - lam * (W @ y), X - lam * (W @ X)
    b = la.lstsq(Xs, ys, rcond=None)[0]
    e = ys - Xs @ b
    s2 = sc(e.T @ e) / n
    return -n / 2 * np.log(2 * np.pi) - n / 2 * np.log(s2) - n / 2 + logdet(W, lam), b, e, s2, Xs


def full_ll(kind, y, X, W, b, r, s2):
    """log likelihood at arbitrary parameters (not concentrated)"""
    n = len(y)
    if kind == "lag":
        e = y - r * (W @ y) - X @ b
    else:
        u = y - X @ b
        e = u - r * (W @ u)
    return -n / 2 * np.log(2 * np.pi * s2) - sc(e.T @ e) / (2 * s2) + logdet(W, r)


def lag_vm(y, X, W, b, rho, s2, mean_W=None):
    n, k = X.shape
    A = la.inv(np.eye(n) - rho * W)
    G = W @ A
    Gm = G if mean_W is None else mean_W @ la.inv(np.eye(n) - rho * mean_W)
    m = Gm @ (X @ b)
    t1, t2, t3 = np.trace(G), np.trace(G @ G), np.trace(G.T @ G)
    I = np.zeros((k + 2, k + 2))
    I[:k, :k] = X.T @ X / s2
    I[:k, k:k + 1] = X.T @ m / s2
    I[k:k + 1, :k] = I[:k, k:k + 1].T
    I[k, k] = t2 + t3 + sc(m.T @ m) / s2
    I[k, k + 1] = I[k + 1, k] = t1 / s2
    I[k + 1, k + 1] = n / (2 * s2 ** 2)
    return la.inv(I)


def err_vm(X, W, lam, s2, Xs):
    n, k = X.shape
    G = W @ la.inv(np.eye(n) - lam * W)
    I = np.array([[np.trace(G @ G) + np.trace(G.T @ G), np.trace(G) / s2], [np.trace(G) / s2, n / (2 * s2 ** 2)]])
    v1 = la.inv(I)
    vm = np.zeros((k + 1, k + 1))
    vm[:k, :k] = s2 * la.inv(Xs.T @ Xs)
    vm[k, k] = v1[0, 0]
    return vm, v1


def grid_max(f, lo=-1.0, hi=1.0, m=401):
    """local maxima of f on (lo, hi): fine grid then golden section"""
    g = np.linspace(lo, hi, m)[1:-1]
    v = np.array([f(x) for x in g])
    out = []
    for i in range(len(g)):
        l = v[i - 1] if i else -np.inf
        r = v[i + 1] if i + 1 < len(g) else -np.inf
        if v[i] >= l and v[i] >= r:
            a, b = g[max(i - 1, 0)], g[min(i + 1, len(g) - 1)]
            if i == 0:
                a = lo
            if i == len(g) - 1:
                b = hi
            for _ in range(80):
                c, d = b - 0.618033988749895 * (b - a), a + 0.618033988749895 * (b - a)
                if f(c) < f(d):
                    a = c
                else:
                    b = d
            x = (a + b) / 2
            out.append((f(x), x))
    out.sort(reverse=True)
    return out
