"""P34: the diagnostics reported by regimes models are those of the design that was estimated."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
import ref, worlds, regs
from p01 import slx_names
from p03 import ak
from p19 import check
from p20 import lm_basic

META = {"rule": "a state is one regimes estimation (estimator, weights, regime layout with 2-5 regimes, mask of varying coefficients, constant option, error variances, lagged regressors, robust option); every diagnostic it reports, for the whole system or for one regime, is recomputed from its definition on the interaction design or on the observations of the regime",
        "assumptions": ["group-wise heteroskedastic and GMM models announce that residuals are treated as homoskedastic for the diagnostics: the definitions are applied to the final residuals with the design of the model"]}

LAY = [("rook:6x8", "cols"), ("knn:6x9", "three"), ("odd:6x9", "three_s"), ("rook:8x10", "five"), ("rooks:6x8", "rows_s")]


def cases(tier):
    out = []
    lay = LAY if tier == "quick" else LAY + [("queen:6x8", "uneq"), ("strid:6x8", "flt"), ("isl:6x8", "cols"), ("rook:6x8", "alt"), ("knn:8x10", "five"), ("rookb:6x8", "cols")]
    for wk, rk in lay:
        for k in (1, 2, 3):
            for slx in (0, 1):
                out.append(("ols/%s/%s/k%d/slx%d" % (wk, rk, k, slx), ("ols", wk, rk, k, slx, tier)))
        for e in (1, 2):
            for slx in (0, 1):
                out.append(("tsls/%s/%s/e%d/slx%d" % (wk, rk, e, slx), ("tsls", wk, rk, e, slx, tier)))
        if wk.startswith("rookb"):
            continue
        for f in ("gmlag", "mllag"):
            for e in (0, 1) if f == "gmlag" else (0,):
                for slx in (0, 1, 2):
                    out.append(("%s/%s/%s/e%d/slx%d" % (f, wk, rk, e, slx), (f, wk, rk, e, slx, tier)))
    return out


def world(wk, rk, k, e, rho, seed):
    a, b = (int(s) for s in wk.split(":")[1].split("x"))
    wd = worlds.World(wk, k=k, e=e, m=e + 1 if e else 0, rho=rho if not wk.startswith("rookb") else rho / 10, lam=0.2 if not wk.startswith("rookb") else 0.02, seed=seed, noise=0.7)
    lab = regs.regimes(rk, a, b)
    s = sorted(set(lab))
    wd.y = wd.y + np.array([[0.6 * s.index(l)] for l in lab]) * wd.x[:, :1]
    return wd, lab


def masks(k, tier):
    ms = list(itertools.product([True, False], repeat=k))
    return ms if k <= 2 or tier == "thorough" else [m for m in ms if sum(m) != 1 or m[0]]


def lm(T, key, m, o, W, moran=True, sar=True):
    want = lm_basic(o, W)
    for a, t in (("lm_error", "lme"), ("lm_lag", "lml"), ("rlm_error", "rlme"), ("rlm_lag", "rlml"), ("lm_sarma", "sarma")):
        got = getattr(m, a)
        T.close(key + a, got[0], want[t][0], 1e-6, atol=1e-8)
        T.close(key + a + "_p", got[1], want[t][1], 1e-5, atol=1e-8)
    I, EI, V = ref.moran_res(o, W)
    if moran:
        z = (I - EI) / np.sqrt(V)
        T.close(key + "moran", m.moran_res[0], I, 1e-7, atol=1e-10)
        T.close(key + "moran_z", m.moran_res[1], z, 1e-6, atol=1e-8)
        T.close(key + "moran_p", m.moran_res[2], 2 * stats.norm.sf(abs(z)), 1e-6, atol=1e-8)


def props(T, key, m):
    """residual sums belong to the reported residuals"""
    s = float((np.asarray(m.u) ** 2).sum())
    T.close(key + "utu", m.utu, s, 1e-9)
    T.close(key + "sig2n", m.sig2n, s / m.n, 1e-9)
    T.close(key + "sig2n_k", m.sig2n_k, s / (m.n - m.k), 1e-9)


def koley(T, key, m, o, W, nconst):
    """Durbin tests are either not reported or follow the definition with the lags of all regressors"""
    if not hasattr(m, "lm_wx"):
        T.true(key + "durbin_absent", not hasattr(m, "lm_spdurbin") and "Spatial Durbin" not in m.summary)
        return
    WX = W @ o.X[:, [j for j in range(o.X.shape[1]) if j not in nconst]]
    d = WX.shape[1]
    p = ref.lm_parts(o, W)
    g = WX.T @ o.u / o.sig2n
    v = ref.sc(g.T @ la.inv(WX.T @ p.M @ WX / o.sig2n) @ g)
    T.close(key + "lm_wx", m.lm_wx, [v, stats.chi2.sf(v, d)], 1e-6, atol=1e-8)


def run(case, T):
    globals()["run_" + case[0]](T, *case[1:])


def run_ols(T, wk, rk, k, slx, tier):
    import spreg
    for seed in (3,) if tier == "quick" else (3, 4, 5):
        wd, lab = world(wk, rk, k, 0, 0.2, seed)
        rset = sorted(set(lab))
        shown = [int(r) if isinstance(r, float) else r for r in rset]
        n, W = wd.n, wd.W
        xs = np.hstack([wd.x] + ([W @ wd.x] if slx else []))
        Xc = np.hstack([np.ones((n, 1)), xs])
        kk = xs.shape[1]
        for mask in masks(kk, "quick") if kk <= 3 else [(True,) * kk, (True, False) * (kk // 2), (False,) * (kk - 1) + (True,), (True,) + (False,) * (kk - 1)]:
            for cons, sep, rob, s2, white in itertools.product(("many", "one"), (True, False), (None, "white"), (True, False), (False, True)):
                full = all(mask) and cons == "many"
                if not any(mask) and cons == "one":
                    continue
                if (rob or not s2) and white and tier == "quick":
                    continue
                flags = [cons == "many"] + list(mask)
                X = regs.split(Xc, flags, lab, rset)
                est = lambda: spreg.OLS_Regimes(wd.y, wd.x, regimes=list(lab), w=wd.w, constant_regi=cons, cols2regi=list(mask), regime_err_sep=sep, robust=rob, sig2n_k=s2, white_test=white, spat_diag=True, moran=True, slx_lags=slx)
                key = "s%d/%s%s/sep%d/%s%d%d/" % (seed, cons, "".join("01"[b] for b in mask), sep, rob, s2, white)
                T.call(); T.state(key)
                if sep and not full and rob is None and s2 and min(lab.count(r) for r in rset) <= X.shape[1]:
                    T.raises(key + "too_few", est)
                    continue
                m = est()
                o = ref.ols(wd.y, X, s2)
                nconst = list(range(0, X.shape[1] - sum(not f for f in flags), sum(flags))) if cons == "many" else [X.shape[1] - sum(not f for f in flags)]
                if sep and not full and rob is None:      # group-wise heteroskedasticity
                    s = ref.sc(o.u.T @ o.u)
                    b = np.asarray(m.betas)
                    u = wd.y - X @ b
                    g = ref.Box(**dict(o.__dict__, b=b, u=u, predy=X @ b))
                    new = float((u ** 2).sum())
                    T.true(key + "stale_ssr", abs(m.utu - new) < 1e-9 * new, "%r, residuals give %r" % (m.utu, new))
                    # the residual sum of squares of the first step is pinned by an existing test
                    g.utu, g.sig2n = (s, s / n) if abs(m.utu - s) < abs(m.utu - new) else (new, new / n)
                    lm(T, key, m, g, W)
                    T.true(key + "no_nonspatial", not hasattr(m, "jarque_bera") and "HETEROSKEDASTICITY" not in m.summary)
                    T.true(key + "announced", "treated as homoskedastic" in m.summary)
                    continue
                lm(T, key, m, o, W)
                koley(T, key, m, o, W, nconst)
                props(T, key, m)
                if sep and full:
                    T.eq(key + "regimes", list(m.multi), shown)
                    for r, sh in zip(rset, shown):
                        ids = [i for i, l in enumerate(lab) if l == r]
                        g = m.multi[sh]
                        kr = "%sr%s/" % (key, rset.index(r))
                        check(T, kr, g, None, wd.y[ids], white=white, X=Xc[ids])
                        top(T, kr, g, ref.ols(wd.y[ids], Xc[ids], s2))
                        T.true(kr + "white", white == hasattr(g, "white"))
                else:
                    if white and not isinstance(m.white, str):
                        T.true(key + "white_df", m.white["df"] > 0)
                    check(T, key, m, None, wd.y, white=white, X=X)
                    top(T, key, m, o)
                    T.true(key + "white", white == hasattr(m, "white"))
        m = spreg.OLS_Regimes(wd.y, wd.x, regimes=list(lab), w=wd.w, nonspat_diag=False, spat_diag=False, regime_err_sep=False)
        T.call()
        for a in ("lm_error", "moran_res", "jarque_bera", "breusch_pagan", "white"):
            T.true("off/" + a, not hasattr(m, a))


def top(T, key, m, o):
    n, k, y = o.n, o.k, o.y
    r2 = 1 - o.utu / float(((y - y.mean()) ** 2).sum())
    F = (r2 / (k - 1)) / ((1 - r2) / (n - k))
    ll = -0.5 * n * (np.log(2 * np.pi * o.utu / n) + 1)
    T.close(key + "F", m.f_stat[0], F, 1e-6)
    T.close(key + "F_p", m.f_stat[1], stats.f.sf(F, k - 1, n - k), 1e-5, atol=1e-10)
    T.close(key + "logll", m.logll, ll, 1e-9)
    T.close(key + "aic", m.aic, 2 * k - 2 * ll, 1e-9)
    T.close(key + "schwarz", m.schwarz, k * np.log(n) - 2 * ll, 1e-9)


def run_tsls(T, wk, rk, e, slx, tier):
    import spreg
    k = 2
    for seed in (3,) if tier == "quick" else (3, 4, 5):
        wd, lab = world(wk, rk, k, e, 0.2, seed)
        rset = sorted(set(lab))
        n, W = wd.n, wd.W
        xs = np.hstack([wd.x] + ([W @ wd.x] if slx else []))
        Xc = np.hstack([np.ones((n, 1)), xs])
        kx = xs.shape[1]
        ms = list(itertools.product([True, False], repeat=kx + e)) if kx + e <= 3 else [(True,) * (kx + e), (True,) * kx + (False,) * e, (False,) * kx + (True,) * e, ((True, False) * (kx + e))[:kx + e], ((False, True) * (kx + e))[:kx + e]]
        for mask in ms:
            for cons, sep, rob, s2 in itertools.product(("many", "one"), (True, False), (None, "white", "ogmm"), (True, False)):
                if not any(mask) and cons == "one":
                    continue
                full = all(mask) and cons == "many"
                if sep and not full and tier == "quick" and rob:
                    continue
                H = np.hstack([regs.split(Xc, [cons == "many"] + list(mask[:kx]), lab, rset), regs.split(wd.q, [True] * wd.q.shape[1], lab, rset)])
                X = regs.split(Xc, [cons == "many"] + list(mask[:kx]), lab, rset)
                E = regs.split(wd.yend, mask[kx:], lab, rset)
                m = spreg.TSLS_Regimes(wd.y, wd.x, wd.yend, wd.q, regimes=list(lab), w=wd.w, constant_regi=cons, cols2regi=list(mask), regime_err_sep=sep, robust=rob, sig2n_k=s2, spat_diag=True, slx_lags=slx)
                key = "s%d/%s%s/sep%d/%s%d/" % (seed, cons, "".join("01"[b] for b in mask), sep, rob, s2)
                T.call(); T.state(key)
                r = ref.tsls(wd.y, X, E, H=H)
                if rob == "ogmm" and not (sep and full):
                    gm = ogmm(r, s2)
                    r.b, r.u = gm
                elif rob == "ogmm":
                    u = np.zeros((n, 1))
                    for g in rset:
                        ids = [i for i, l in enumerate(lab) if l == g]
                        q = ref.tsls(wd.y[ids], Xc[ids], wd.yend[ids], wd.q[ids])
                        u[ids] = ogmm(q, s2)[1]
                    r.u = u
                r.utu = float((r.u ** 2).sum()); r.sig2n = r.utu / n
                T.close(key + "u", m.u, r.u, 1e-6, atol=1e-8)
                ak(T, key, m.ak_test, r, W)
                T.close(key + "utu", m.utu, r.utu, 1e-6)
                T.close(key + "sig2n", m.sig2n, r.sig2n, 1e-6)
                if sep and full:
                    for g in m.multi.values():
                        props(T, key + "multi/", g)


def ogmm(r, s2):
    H, Z, u, y = r.H, r.Z, r.u, r.y
    S = (H * u).T @ (H * u)
    A = Z.T @ H @ la.inv(S)
    b = la.inv(A @ H.T @ Z) @ A @ H.T @ y
    return b, y - Z @ b


def comfac(T, key, m, b, vm, rho, xi, wi, ri):
    be, ga = b[xi], b[wi]
    k = len(xi)
    idx = list(xi) + list(wi) + [ri]
    V = vm[np.ix_(idx, idx)]
    g = rho * be + ga
    G = np.hstack([rho * np.eye(k), np.eye(k), be])
    v = ref.sc(g.T @ la.inv(G @ V @ G.T) @ g)
    T.close(key + "cfh", m.cfh_test, [v, stats.chi2.sf(v, k)], 1e-6, atol=1e-9)


def lagged(T, f, wk, rk, e, slx, tier):
    import spreg
    k = 2
    C = spreg.GM_Lag_Regimes if f == "gmlag" else spreg.ML_Lag_Regimes
    for seed in (3,) if tier == "quick" else (3, 4, 5):
        wd, lab = world(wk, rk, k, e, 0.3, seed)
        rset = sorted(set(lab))
        shown = [int(r) if isinstance(r, float) else r for r in rset]
        nr = len(rset)
        n, W = wd.n, wd.W
        names = ["al", "be"] + (slx_names(["al", "be"], [True] * 2, slx) if slx else [])
        kx = len(names)
        en = ["ea"][:e]
        ms = list(itertools.product([True, False], repeat=kx + e)) if kx + e <= 4 else [(True,) * (kx + e), ((True, False) * (kx + e))[:kx + e], (False,) * kx + (True,) * e]
        opts = [{"robust": None}, {"robust": "white"}, {"robust": "ogmm"}] if f == "gmlag" else [{}]
        for mask, cons, sep in itertools.product(ms, ("many", "one"), (False, True)):
            full = all(mask) and cons == "many"
            if (not any(mask) and cons == "one") or (sep and not full):
                continue
            if sep and any(lab.count(r) < 14 for r in rset) and (e or slx):
                continue
            if sep and rk == "alt":
                continue
            for opt in opts:
                kw = dict(opt, name_y="yy", name_x=["al", "be"], name_regimes="reg", slx_lags=slx, w=wd.w, constant_regi=cons, cols2regi=list(mask), spat_diag=True)
                if e:
                    kw.update(yend=wd.yend, q=wd.q, name_yend=en, name_q=["qa", "qb"])
                kw.update(regime_lag_sep=sep)
                if f == "gmlag":
                    kw.update(regime_err_sep=sep)
                m = C(wd.y, wd.x, regimes=list(lab), **kw)
                key = "s%d/%s%s/sep%d/%s/" % (seed, cons, "".join("01"[b] for b in mask), sep, opt.get("robust"))
                T.call(); T.state(key)
                parts = [(key, m, W, range(n))] if not sep else [("%sr%d/" % (key, i), m.multi[s], worlds.dense(regs.sub_w(wd.w, [j for j, l in enumerate(lab) if l == r])), [j for j, l in enumerate(lab) if l == r]) for i, (r, s) in enumerate(zip(rset, shown))]
                for kk, g, Wg, ids in parts:
                    if f == "gmlag":
                        u = np.asarray(g.u)
                        H, Z = [np.asarray(a.todense() if hasattr(a, "todense") else a) for a in (g.h, g.z)]
                        Zh = H @ la.lstsq(H, Z, rcond=None)[0]
                        utu = float((u ** 2).sum())
                        r = ref.Box(n=len(u), u=u, utu=utu, sig2n=utu / len(u), Z=Z, varb=la.inv(Zh.T @ Zh))
                        ak(T, kk, g.ak_test, r, Wg)
                        props(T, kk, g)
                    else:
                        T.true(kk + "no_ak", not hasattr(g, "ak_test"))
                    cf = slx == 1 and not e
                    if cf and not sep:        # paired regressors and lags in the table
                        fx, fw = list(mask[:2]), list(mask[2:4])
                        cf = fx == fw
                    if not cf:
                        T.true(kk + "no_cfh", not hasattr(g, "cfh_test"), getattr(g, "cfh_test", None))
                        continue
                    b, vm = np.asarray(g.betas), np.asarray(g.vm)
                    if sep:
                        comfac(T, kk, g, b, vm, b[-1, 0], [1, 2], [3, 4], 5)
                    else:
                        flags = [cons == "many"] + list(mask[:4])
                        nm = regs.split_names(["CONSTANT"] + names, flags, shown)
                        xi = [i for i, v in enumerate(nm) if v.endswith(("_al", "_be")) and "_W_" not in v]
                        wi = [i for i, v in enumerate(nm) if "_W_" in v]
                        ri = len(b) - 1
                        comfac(T, kk, g, b, vm, b[-1, 0], xi, wi, ri)
                    t = m.summary
                    T.true(kk + "printed", "Common Factor Hypothesis Test" in t)


def run_gmlag(T, *a):
    lagged(T, "gmlag", *a)


def run_mllag(T, *a):
    lagged(T, "mllag", *a)
