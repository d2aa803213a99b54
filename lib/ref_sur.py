"""Dense reference model of the systems of equations (Kronecker algebra on the stacked system)."""
import numpy as np
import numpy.linalg as la
from scipy.linalg import block_diag
from scipy import stats


def gls(y, X, S, Xh=None):
    """solution of the stacked system with disturbance covariance S (x) I; Xh: regressors after the first stage"""
    Xh = X if Xh is None else Xh
    n = len(y[0])
    B = block_diag(*Xh)
    P = np.kron(la.inv(S), np.eye(n))
    V = la.inv(B.T @ P @ B)
    b = V @ (B.T @ P @ np.vstack(y))
    return cut(b, X), V


def cut(b, X):
    out, i = [], 0
    for x in X:
        out.append(b[i: i + x.shape[1]])
        i += x.shape[1]
    return out


def resid(y, X, b):
    return np.hstack([a - x @ c for a, x, c in zip(y, X, b)])


def cov(E):
    return E.T @ E / len(E)


def ols(y, X):
    return [la.lstsq(x, a, rcond=None)[0] for a, x in zip(y, X)]


def project(H, Z):
    return H @ la.lstsq(H, Z, rcond=None)[0]


def table(b, V):
    se = np.sqrt(np.diag(V)).reshape(-1, 1)
    z = np.vstack(b) / se
    return np.hstack([se, z, 2 * stats.norm.sf(abs(z))])


def wald(R, b, V):
    d = R @ np.vstack(b)
    w = float((d.T @ la.solve(R @ V @ R.T, d))[0, 0])
    return w, len(R), stats.chi2.sf(w, len(R))


def positions(X):
    out, i = [], 0
    for x in X:
        out.append(list(range(i, i + x.shape[1])))
        i += x.shape[1]
    return out


def contrast(pos, K):
    """all the coefficients in the given positions are equal"""
    R = np.zeros((len(pos) - 1, K))
    for i in range(len(pos) - 1):
        R[i, pos[0]] = 1
        R[i, pos[i + 1]] = -1
    return R
