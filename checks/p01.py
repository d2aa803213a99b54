"""P01: OLS = least squares + classical inference, over the option product."""
import itertools
import numpy as np
import pandas as pd
import scipy.sparse as sp
from scipy import stats
import ref, worlds

META = {
    "rule": "a state is one (design, option combination); the OLS entry point is executed on it and every reported number is compared with the normal-equation model",
    "assumptions": ["float64 tolerance 1e-7 relative; designs of full column rank"],
}


def masks(k):
    return ["All"] + [list(m) for m in itertools.product([True, False], repeat=k) if any(m)]


def cases(tier):
    out = []
    ws = ["rook:5x5", "knn:4x5", "rookb:3x4", "odd:4x4", "isl:5x5", "strid:5x5"]
    if tier == "thorough":
        ws += ["queen:6x6", "ring:3x4", "rooks:5x4", "knn:7x7", "rook:2x8"]
    for wk in ws:
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for lags in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                out.append(("opt/%s/k%d/lag%d" % (wk, k, lags), ("opt", wk, k, lags)))
    for k, lags in ((6, 0), (5, 1), (5, 2), (2, 5)):
        out.append(("opt/rook:7x7/k%d/lag%d" % (k, lags), ("opt", "rook:7x7", k, lags)))
    for design in ("dummy", "scaled", "tight", "shifted", "integer", "collinear"):
        for k in (1, 2, 3):
            out.append(("design/%s/k%d" % (design, k), ("design", design, k)))
    # every response vector over a small alphabet on fixed small designs
    n = 6 if tier == "quick" else 7
    for d in range(4):
        for first in range(3):
            out.append(("ally/d%d/y0=%d" % (d, first), ("ally", d, first, n)))
    return out


def compare(T, key, m, y, X, names, s2nk, nonspat=True, tol=1e-7, utol=None):
    r = ref.ols(y, X, s2nk)
    n, k = X.shape
    ys = float(np.abs(y).max()) or 1.0
    at = (utol or 1e-8) * ys
    T.close(key + "betas", m.betas, r.b, tol, shape=True)
    T.close(key + "u", m.u, r.u, tol, atol=at, shape=True)
    T.close(key + "predy", m.predy, r.predy, tol, atol=at, shape=True)
    T.eq(key + "n,k", (m.n, m.k), (n, k))
    T.close(key + "vm", m.vm, r.vm, tol, shape=True)
    T.close(key + "utu", m.utu, r.utu, tol)
    T.close(key + "sig2", m.sig2, r.sig2, tol)
    T.close(key + "sig2n", m.sig2n, r.utu / n, tol)
    T.close(key + "sig2n_k", m.sig2n_k, r.utu / (n - k), tol)
    T.close(key + "mean_y", m.mean_y, y.mean(), tol, atol=1e-12 * ys)
    T.close(key + "std_y", m.std_y, y.std(ddof=1), tol)
    se, t, p = ref.t_table(r.b, r.vm, n - k)
    bt = 1e-7 * max(1.0, float(np.abs(t).max()))
    T.close(key + "std_err", m.std_err, se, tol)
    T.close(key + "t_stat", [v[0] for v in m.t_stat], t, tol, atol=bt)
    T.close(key + "t_prob", [v[1] for v in m.t_stat], p, 1e-6, atol=1e-7)
    tss = float(((y - y.mean()) ** 2).sum())
    r2 = 1 - r.utu / tss
    T.close(key + "r2", m.r2, r2, tol, atol=1e-9)
    T.close(key + "ar2", m.ar2, 1 - (1 - r2) * (n - 1) / (n - k), tol, atol=1e-9)
    o = m.output
    T.eq(key + "names", list(o["var_names"]), names)
    T.eq(key + "name_x", list(m.name_x), names)
    T.close(key + "out.coefficients", o["coefficients"].to_numpy(float), r.b, tol)
    T.close(key + "out.std_err", o["std_err"].to_numpy(float), se, tol)
    T.close(key + "out.zt", o["zt_stat"].to_numpy(float), t, tol, atol=bt)
    T.close(key + "out.prob", o["prob"].to_numpy(float), p, 1e-6, atol=1e-7)
    if nonspat and k > 1:
        f = ((r.predy - y.mean()) ** 2).sum() / (k - 1) / (r.utu / (n - k))
        T.close(key + "F", m.f_stat[0], f, 1e-6, atol=1e-9)
        T.close(key + "Fp", m.f_stat[1], stats.f.sf(f, k - 1, n - k), 1e-5, atol=1e-8)
        ll = -0.5 * n * (np.log(2 * np.pi) + np.log(r.utu / n) + 1)
        T.close(key + "logll", m.logll, ll, 1e-8)
        T.close(key + "aic", m.aic, 2 * k - 2 * ll, 1e-8)
        T.close(key + "schwarz", m.schwarz, k * np.log(n) - 2 * ll, 1e-8)
    return r


def slx_names(names, mask, lags):
    sel = [s for s, m in zip(names, mask) if m]
    out = []
    for l in range(1, lags + 1):
        out += [("W_" if l == 1 else "W%d_" % l) + s for s in sel]
    return out


def run_opt(T, wk, k, lags):
    import spreg
    wd = worlds.World(wk, k=k, e=0, m=0)
    nm = ["alpha", "b_2", "Gam", "del", "eps", "zet"][:k]
    for mask in (masks(k) if lags else ["All"]):
        mk = [True] * k if mask == "All" else mask
        Xr = np.hstack([wd.X] + ([ref.wlags(wd.W, wd.x[:, np.array(mk)], lags)] if lags else []))
        if np.linalg.matrix_rank(Xr) < Xr.shape[1] or Xr.shape[0] < Xr.shape[1] + 2:
            continue
        names = ["CONSTANT"] + nm + slx_names(nm, mk, lags)
        for s2, form, nsd in itertools.product([True, False], ["np", "np1", "pd", "int", "sparse"], [True, False]):
            if form == "sparse" and (nsd or lags):
                continue
            y, x = wd.y, wd.x
            Xc = Xr
            kw = dict(name_x=list(nm), name_y="resp")
            if form == "np1":
                y = y.ravel()
                if k == 1:
                    x = x.ravel()
            elif form == "pd":
                y, x = pd.Series(y.ravel(), name="resp"), pd.DataFrame(x, columns=nm)
                kw = {}
            elif form == "sparse":
                x = sp.csr_matrix(x)
            elif form == "int":
                if lags:
                    continue
                y, x = np.round(y * 10).astype(int), np.round(x * 7).astype(int)
                Xc = np.hstack([np.ones((wd.n, 1)), x.astype(float)])
            m = spreg.OLS(y, x, w=wd.w if lags else None, slx_lags=lags, slx_vars=mask, sig2n_k=s2, nonspat_diag=nsd, **kw)
            T.call(); T.state(wk, k, lags, str(mask), s2, form, nsd)
            compare(T, "%s/s2=%s/%s/nsd=%s/" % ("".join("01"[b] for b in mk), s2, form, nsd), m,
                    np.asarray(y, float).reshape(-1, 1), Xc, names, s2, nsd)
            T.eq("name_y", m.name_y, "resp")


def run_design(T, design, k):
    import spreg
    wd = worlds.World("rook:5x5", k=k, e=0, m=0, seed=3)
    x, y, tol = wd.x.copy(), wd.y.copy(), 1e-7
    if design == "dummy":
        x = np.array([[(i >> j) & 1 for j in range(k)] for i in range(wd.n)], float)
    elif design == "scaled":
        x = x * np.array([1e4, 1e-3, 1.0])[:k]; tol = 1e-5
    elif design == "tight":          # n = k + 2
        x, y = x[:k + 3], y[:k + 3]
    elif design == "shifted":
        x = x + 50.0; tol = 1e-6
    elif design == "integer":
        x = np.round(x * 5)
        y = np.round(y)
    elif design == "collinear":
        if k > 1:
            x[:, 1] = x[:, 0] + 0.02 * x[:, 1]
        tol = 1e-5
    X = np.hstack([np.ones((x.shape[0], 1)), x])
    for s2 in (True, False):
        m = spreg.OLS(y, x, sig2n_k=s2)
        T.call(); T.state(design, k, s2)
        compare(T, "s2=%s/" % s2, m, y, X, ["CONSTANT"] + ["var_%d" % (i + 1) for i in range(k)], s2, True, tol, utol=tol)


def run_ally(T, d, first, n):
    import spreg
    designs = [
        np.arange(n, dtype=float).reshape(-1, 1),
        np.array([[i % 2] for i in range(n)], float),
        np.array([[i, i * i % 5] for i in range(n)], float),
        np.array([[1.0 if i == 2 else 0.0, i % 3] for i in range(n)], float),
    ]
    x = designs[d]
    X = np.hstack([np.ones((n, 1)), x])
    M = np.eye(n) - X @ np.linalg.inv(X.T @ X) @ X.T
    for rest in itertools.product((0.0, 1.0, 2.5), repeat=n - 1):
        y = np.array(((0.0, 1.0, 2.5)[first],) + rest).reshape(-1, 1)
        if np.ptp(y) == 0 or (y.T @ M @ y).item() < 1e-8:
            continue
        m = spreg.OLS(y, x, nonspat_diag=False)
        T.call(); T.state(d, tuple(y.ravel()))
        r = ref.ols(y, X)
        T.close("betas", m.betas, r.b, 1e-8, atol=1e-9)
        T.close("u", m.u, r.u, 1e-8, atol=1e-9)
        T.close("vm", m.vm, r.vm, 1e-8, atol=1e-9)
        T.close("r2", m.r2, 1 - r.utu / ((y - y.mean()) ** 2).sum(), 1e-8, atol=1e-9)
        T.close("foc", X.T @ m.u, np.zeros(X.shape[1]), atol=1e-8)


def run(case, T):
    {"opt": run_opt, "design": run_design, "ally": run_ally}[case[0]](T, *case[1:])
