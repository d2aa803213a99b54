"""Independent dense reference implementations (executable specification).

Written from the textbook formulas; uses numpy/scipy only, never spreg.
"""
import numpy as np
import numpy.linalg as la
from scipy import stats, optimize


class Box(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def sc(a):
    return np.asarray(a, float).item()


def col(v):
    return np.asarray(v, float).reshape(-1, 1)


def wlags(W, X, p):
    out, L = [], X
    for _ in range(p):
        L = W @ L
        out.append(L)
    return np.hstack(out) if out else np.zeros((X.shape[0], 0))


def mask(slx_vars, k):
    return [True] * k if isinstance(slx_vars, str) else list(slx_vars)


def slx(W, x, lags, slx_vars="all"):
    m = np.array(mask(slx_vars, x.shape[1]), bool)
    return np.hstack([x] + ([wlags(W, x[:, m], lags)] if lags else []))


# ---------------------------------------------------------------- OLS / 2SLS
def ols(y, X, sig2n_k=True, omega=None):
    n, k = X.shape
    XtXi = la.inv(X.T @ X)
    b = la.lstsq(X, y, rcond=None)[0]
    u = y - X @ b
    utu = float((u ** 2).sum())
    s2 = utu / (n - k) if sig2n_k else utu / n
    vm = s2 * XtXi
    return Box(b=b, u=u, predy=X @ b, n=n, k=k, utu=utu, sig2=s2, sig2n=utu / n, sig2n_k=utu / (n - k), vm=vm, XtXi=XtXi, y=y, X=X)


def t_table(b, vm, df=None):
    se = np.sqrt(np.diag(vm)).reshape(-1, 1)
    t = col(b) / se
    p = 2 * stats.t.sf(np.abs(t), df) if df else 2 * stats.norm.sf(np.abs(t))
    return se, t, p


def white_ols(r, sig2n_k=True):
    S = (r.X * r.u).T @ (r.X * r.u)
    if sig2n_k:
        S = S * r.n / (r.n - r.k)
    return r.XtXi @ S @ r.XtXi


def hac_ols(r, K):
    Z = r.X * r.u
    return r.XtXi @ (Z.T @ K @ Z) @ r.XtXi


def tsls(y, X, yend, Q=None, H=None, sig2n_k=False):
    Z = np.hstack([X, yend])
    H = np.hstack([X, Q]) if H is None else H
    n, k = Z.shape
    HHi = la.inv(H.T @ H)
    Zh = H @ (HHi @ (H.T @ Z))
    varb = la.inv(Zh.T @ Z)
    b = varb @ (Zh.T @ y)
    u = y - Z @ b
    utu = float((u ** 2).sum())
    s2 = utu / (n - k) if sig2n_k else utu / n
    return Box(b=b, u=u, predy=Z @ b, Z=Z, H=H, HHi=HHi, varb=varb, sig2=s2, sig2n=utu / n, sig2n_k=utu / (n - k), vm=s2 * varb, utu=utu,
               n=n, k=k, y=y, X=X, P=varb @ Z.T @ H @ HHi, Zh=Zh)


def white_tsls(r, sig2n_k=False):
    S = (r.H * r.u).T @ (r.H * r.u)
    if sig2n_k:
        S = S * r.n / (r.n - r.k)
    return r.P @ S @ r.P.T


def hac_tsls(r, K):
    Z = r.H * r.u
    return r.P @ (Z.T @ K @ Z) @ r.P.T


def dwh(y, X, yend, Q, H=None):
    """Durbin-Wu-Hausman as auxiliary-regression F test"""
    Hs = np.hstack([X, Q]) if H is None else H
    pred = Hs @ la.lstsq(Hs, yend, rcond=None)[0]
    XE = np.hstack([X, yend])
    Z = np.hstack([XE, pred])
    u1 = y - Z @ la.lstsq(Z, y, rcond=None)[0]
    u2 = y - XE @ la.lstsq(XE, y, rcond=None)[0]
    df1 = yend.shape[1]
    df2 = y.shape[0] - Z.shape[1]
    fu = float((u1 ** 2).sum()); fr = float((u2 ** 2).sum())
    f = ((fr - fu) / df1) / (fu / df2)
    return f, stats.f.sf(f, df1, df2)


# ---------------------------------------------------------------- spatial 2SLS
def gm_lag_parts(y, X, W, yend=None, Q=None, w_lags=1, lag_q=True, slx_lags=0, slx_vars="all"):
    """returns (X regressors incl. slx, endogenous incl. Wy, instruments Q)"""
    x = X[:, 1:]
    Xr = np.hstack([X[:, :1], slx(W, x, slx_lags, slx_vars)])
    base = x
    for _ in range(slx_lags):
        base = W @ base
    if yend is None or yend.shape[1] == 0:
        inst = wlags(W, base, w_lags)
        E = W @ y
    else:
        lag = wlags(W, base, w_lags)
        if lag_q:
            blocks = []
            bx, bq = base, Q
            for _ in range(w_lags):
                bx, bq = W @ bx, W @ bq
                blocks += [bx, bq]
            lag = np.hstack(blocks)
        inst = np.hstack([Q, lag])
        E = np.hstack([yend, W @ y])
    return Xr, E, inst


# ---------------------------------------------------------------- spatial diagnostics
def lm_parts(o, W):
    y, X, u, s2 = o.y, o.X, o.u, o.sig2n
    n = o.n
    T = float(np.trace((W.T + W) @ W))
    WXb = W @ (X @ o.b)
    M = np.eye(n) - X @ o.XtXi @ X.T
    nJ = (sc(WXb.T @ M @ WXb) + T * s2) / s2     # n * J
    dl = sc(u.T @ W @ y) / s2
    de = sc(u.T @ W @ u) / s2
    return Box(T=T, nJ=nJ, dl=dl, de=de, M=M)


def lm_all(o, W):
    p = lm_parts(o, W)
    c1 = lambda s: (s, stats.chi2.sf(s, 1))
    out = {}
    out["lme"] = c1(p.de ** 2 / p.T)
    out["lml"] = c1(p.dl ** 2 / p.nJ)
    out["rlme"] = c1((p.de - p.T / p.nJ * p.dl) ** 2 / (p.T * (1 - p.T / p.nJ)))
    out["rlml"] = c1((p.dl - p.de) ** 2 / (p.nJ - p.T))
    s = (p.dl - p.de) ** 2 / (p.nJ - p.T) + p.de ** 2 / p.T
    out["sarma"] = (s, stats.chi2.sf(s, 2))
    # SLX part (Koley-Bera): regressors without the constant
    x = o.X[:, 1:]
    k = x.shape[1]
    WX = W @ x
    s2 = o.sig2n
    g = WX.T @ o.u / s2
    V = WX.T @ p.M @ WX / s2
    lmwx = sc(g.T @ la.inv(V) @ g)
    out["lmwx"] = (lmwx, stats.chi2.sf(lmwx, k))
    WXb = W @ (o.X @ o.b)
    # joint (rho, gamma)
    d = np.vstack([[[p.dl]], g])
    C = WXb.T @ p.M @ WX / s2
    J = np.vstack([np.hstack([[[p.nJ]], C]), np.hstack([C.T, V])])
    lmd = sc(d.T @ la.inv(J) @ d)
    out["lmspdurbin"] = (lmd, stats.chi2.sf(lmd, k + 1))
    r1 = lmd - p.dl ** 2 / p.nJ
    out["rlmwx"] = (r1, stats.chi2.sf(r1, k))
    r2 = lmd - lmwx
    out["rlmdurlag"] = (r2, stats.chi2.sf(r2, 1))
    s = lmwx + out["lme"][0]
    out["lmslxerr"] = (s, stats.chi2.sf(s, k + 1))
    return out


def moran_res(o, W):
    n, k = o.n, o.k
    S0 = W.sum()
    I = n / S0 * sc(o.u.T @ W @ o.u) / o.utu
    M = np.eye(n) - o.X @ o.XtXi @ o.X.T
    MW = M @ W
    t1 = np.trace(MW)
    EI = n / S0 * t1 / (n - k)
    t2 = np.trace(MW @ M @ W.T)
    t3 = np.trace(MW @ MW)
    v = (n / S0) ** 2 * (t2 + t3 + t1 ** 2) / ((n - k) * (n - k + 2)) - EI ** 2
    return I, EI, v
