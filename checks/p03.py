"""P03: 2SLS and its diagnostics."""
import itertools
import numpy as np
import pandas as pd
import scipy.sparse as sp
from scipy import stats
import ref, worlds, zcheck
from p01 import masks, slx_names

META = {"rule": "a state is one (world, #exogenous, #endogenous, #instruments, slx order, mask, variance, input form, diagnostics) combination executed on TSLS"}


def cases(tier):
    out = []
    ws = ["rook:5x5", "knn:5x5", "odd:5x5"] + (["isl:6x6", "queen:6x6", "rookb:5x6", "strid:7x7"] if tier == "thorough" else ["strid:5x5"])
    for wk in ws:
        for k, e, m in itertools.product((1, 2, 3) if tier == "quick" else (1, 2, 3, 4), (1, 2), (1, 2, 3)):
            if m < e:
                continue
            for lags in (0, 1, 2):
                out.append(("tsls/%s/k%de%dm%d/lag%d" % (wk, k, e, m, lags), (wk, k, e, m, lags)))
    for k, e, m in ((5, 1, 2), (2, 3, 3), (4, 3, 5)):
        for lags in (0, 1, 2):
            out.append(("tsls/rook:7x7/k%de%dm%d/lag%d" % (k, e, m, lags), ("rook:7x7", k, e, m, lags)))
    for k, e, m in itertools.product((1, 2), (1, 2), (1, 2, 3)):
        if m >= e:
            out.append(("h/k%de%dm%d" % (k, e, m), ("h", k, e, m)))
    return out


def ak(T, key, got, r, W, tol=1e-6):
    n = r.n
    S0 = W.sum()
    mi = n * ref.sc(r.u.T @ W @ r.u) / (S0 * r.utu)
    t = np.trace((W.T + W) @ W)
    a = ref.sc((r.u.T @ W @ r.Z) @ r.varb @ (r.Z.T @ W.T @ r.u))
    phi2 = (t + 4.0 / r.sig2n * a) / ((S0 / n) ** 2 * n)
    v = n * mi ** 2 / phi2
    T.close(key + "ak", got[0], v, tol, atol=1e-9)
    T.close(key + "ak_p", got[1], stats.chi2.sf(v, 1), tol, atol=1e-9)
    return mi, v


def run(case, T):
    import spreg
    if case[0] == "h":
        from spreg.twosls import BaseTSLS
        _, k, e, m = case
        wd = worlds.World("rook:5x5", k=k, e=e, m=m, rho=0)
        H = np.hstack([wd.X, wd.q, wd.q[:, :1] ** 2])
        for s2 in (True, False):
            for form in ("np", "sparse"):
                b = BaseTSLS(wd.y, wd.X, wd.yend, h=H if form == "np" else sp.csr_matrix(H), sig2n_k=s2)
                T.call(); T.state(case, s2, form)
                r = ref.tsls(wd.y, wd.X, wd.yend, H=H, sig2n_k=s2)
                T.close("betas", b.betas, r.b, 1e-7)
                T.close("vm", b.vm, r.vm, 1e-7)
                T.close("u", b.u, r.u, 1e-7)
                T.close("predy", b.predy, r.predy, 1e-7)
        return
    wk, k, e, m, lags = case
    wd = worlds.World(wk, k=k, e=e, m=m, rho=0.0, seed=k + 10 * e)
    nx, ne, nq = ["a1", "b2", "c3", "d4", "e5"][:k], ["en1", "en2", "en3"][:e], ["qa", "qb", "qc", "qd", "qe"][:m]
    for mask in (masks(k) if lags else ["All"]):
        mk = [True] * k if mask == "All" else mask
        X = np.hstack([wd.X] + ([ref.wlags(wd.W, wd.x[:, np.array(mk)], lags)] if lags else []))
        names = ["CONSTANT"] + nx + slx_names(nx, mk, lags) + ne
        for s2, form, sd, nsd in itertools.product([True, False], ["np", "np1", "pd", "sparse"], [False, True], [True, False]):
            if form == "np1" and (k > 1 and e > 1 and m > 1):
                continue
            if form == "sparse" and (lags or nsd or sd):
                continue
            if tuple(mk) != (True,) * k and (form != "np" or not s2):
                continue
            y, x, en, q = wd.y, wd.x, wd.yend, wd.q
            kw = dict(name_y="Y", name_x=list(nx), name_yend=list(ne), name_q=list(nq))
            if form == "np1":
                y = y.ravel().copy()
                x = x.ravel().copy() if k == 1 else x
                en = en.ravel().copy() if e == 1 else en
                q = q.ravel().copy() if m == 1 else q
            elif form == "pd":
                kw = {}
                y = pd.Series(y.ravel(), name="Y"); x = pd.DataFrame(x, columns=nx)
                en = pd.DataFrame(en, columns=ne) if e > 1 else pd.Series(en.ravel(), name=ne[0])
                q = pd.DataFrame(q, columns=nq)
            elif form == "sparse":
                x = sp.csr_matrix(x)
            mod = spreg.TSLS(y, x, en, q, w=wd.w, slx_lags=lags, slx_vars=mask, sig2n_k=s2, spat_diag=sd, nonspat_diag=nsd, **kw)
            T.call(); T.state(case, str(mask), s2, form, sd, nsd)
            r = ref.tsls(wd.y, X, wd.yend, wd.q, sig2n_k=s2)
            key = "%s/s2=%s/%s/" % ("".join("01"[b] for b in mk), s2, form)
            zcheck.inference(T, key, mod, r.b, r.vm, names, rtol=1e-6)
            from spreg import diagnostics as D_, diagnostics_tsls as DT
            zz = np.asarray(mod.betas).ravel() / np.sqrt(np.diag(mod.vm))
            for fn in (D_.t_stat, DT.t_stat):
                for flag in (True, False):
                    got = fn(mod, z_stat=flag)
                    pv = 2 * stats.norm.sf(abs(zz)) if flag else 2 * stats.t.sf(abs(zz), wd.n - len(zz))
                    T.close(key + "t_stat", [g_[0] for g_ in got], zz, 1e-10, atol=1e-10)
                    T.close(key + "t_stat_p", [g_[1] for g_ in got], pv, 1e-8, atol=1e-290)
            T.close(key + "u", mod.u, r.u, 1e-7, shape=True)
            T.close(key + "predy", mod.predy, r.predy, 1e-7, shape=True)
            T.close(key + "sig2", mod.sig2, r.sig2, 1e-7)
            T.close(key + "utu", mod.utu, r.utu, 1e-7)
            T.eq(key + "n,k,kstar", (mod.n, mod.k, mod.kstar), (r.n, r.k, e))
            T.close(key + "pr2", mod.pr2, np.corrcoef(wd.y.ravel(), r.predy.ravel())[0, 1] ** 2, 1e-7)
            T.eq(key + "name_h", list(mod.name_h), names[:len(names) - e] + nq)
            T.eq(key + "name_z", list(mod.name_z), names)
            if nsd:
                f, p = ref.dwh(wd.y, X, wd.yend, wd.q)
                T.close(key + "dwh", mod.dwh[0], f, 1e-5, atol=1e-8)
                T.close(key + "dwh_p", mod.dwh[1], p, 1e-4, atol=1e-7)
            if sd:
                ak(T, key, mod.ak_test, r, wd.W)
