"""P26: pooled, fixed- and random-effects panel estimators equal their defining regressions; panel tests equal their definitions."""
import contextlib, io, itertools
import types
import numpy as np
import numpy.linalg as la
import pandas as pd
from scipy import stats
import spreg
from spreg import diagnostics_panel as DP
import ref, ref_ml, worlds
import zcheck

META = {"rule": "a state is (weights, periods, regressors, strength of individual effects and of spatial error, estimator, lagged regressor mask, robust option, data form); estimates compared with dense stacked / within / quasi-demeaned regressions, tests with their dense matrix definitions",
        "assumptions": ["full-rank regressors, varying over time for fixed effects"]}

WK = {"quick": ["rook:5x5", "knn:4x6", "odd:5x5"], "thorough": ["rook:5x5", "knn:4x6", "odd:5x5", "queen:4x5", "isl:5x5", "rooks:5x5", "rookb:5x5", "knn:5x8"]}
TK = {"quick": [(2, 1), (3, 2), (5, 3)], "thorough": [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2), (4, 4), (5, 3), (7, 2)]}
DGP = {"quick": [(1.0, 0.4), (0.0, -0.4)], "thorough": [(1.0, 0.4), (0.0, -0.4), (0.4, 0.0), (2.0, -0.7), (0.0, 0.0)]}
FORMS = ("long", "wide", "longdf", "widedf")


def cases(tier):
    more = [("signs/%s/T%d" % (wk.replace(":", ""), t), ("signs", wk, t)) for wk in ("rook:5x5", "knn:5x6", "odd:5x5") for t in (2, 3, 5)]
    more += [("fixedx/%s/T%dk%d/x%g" % (wk.replace(":", ""), t, k, s), ("fixedx", wk, t, k, s)) for wk in ("rook:5x5", "knn:5x6") for t in (2, 3, 5) for k in (1, 2, 3) for s in (1.0, 1e4, 1e-4)]
    more += [("fixedfe/%s/T%dk%d" % (wk.replace(":", ""), t, k), ("fixedfe", wk, t, k)) for wk in ("rook:4x4", "knn:5x6") for t in (2, 3, 5) for k in (1, 2, 3, 4)]
    return more + [("%s/%s/T%dk%d/mu%g_lam%g" % (part, wk.replace(":", ""), t, k, mu, lam), (part, wk, t, k, mu, lam))
            for part in ("est", "tests") for wk in WK[tier] for t, k in TK[tier] + ([(3, 5), (7, 3)] if wk == "rook:5x5" else []) for mu, lam in DGP[tier]]


def signs(T, wk, t):
    """one-sided joint test: every combination of signs of its two parts"""
    seen = set()
    for seed in range(40):
        for mu, lam in ((0.0, 0.0), (0.0, 0.7), (0.0, -0.7), (1.0, -0.7), (1.0, 0.5)):
            w, W, y, X = data(wk, t, 1, mu, lam, seed=seed)
            o = ref.ols(y, np.hstack([np.ones((len(y), 1)), X]))
            want = bsk_pool(W, o, t)
            sg = (want[ORDER[0]][0] > 0, want[ORDER[1]][0] > 0)
            if sg in seen and seed > 5:
                continue
            seen.add(sg)
            T.call(2); T.state(wk, t, seed, mu, lam)
            m = quiet(spreg.PooledOLS, y, X, w, BSK_list=["LMJ", "LM1", "LM2"])
            table(T, "signs/%d%d/att" % sg, m.bsk, want)
            table(T, "signs/%d%d/lmj" % sg, quiet(DP.BSK_tests, m, w, which="LMJ"), {ORDER[2]: want[ORDER[2]]})
    T.true("signs/covered", len(seen) == 4, seen)


def fixedx(T, wk, t, k, scale):
    """random effects with regressors that do not change over time: the within regression and the Hausman test use the others"""
    w, W, y, X = data(wk, t, k, 0.8, 0.0)
    n, N = len(W), len(y)
    c = np.ones((N, 1))
    Dm = np.tile(np.eye(n), (t, 1))
    for mask in itertools.product((0, 1), repeat=k):            # 1: constant over time
        Z = np.hstack([np.tile(means(X[:, [j]], n), (t, 1)) * scale if f else X[:, [j]] * (scale if j else 1.0) for j, f in enumerate(mask)])
        yy = y + Z @ np.full((k, 1), 0.3 / scale)
        v = [j for j, f in enumerate(mask) if not f]
        d = ref.ols(yy, np.hstack([Z[:, v], Dm]))
        s2e = d.utu / (N - n - len(v))
        bt = ref.ols(means(yy, n), np.hstack([np.ones((n, 1)), means(Z, n)]))
        s2m = max(0.0, bt.utu / (n - k - 1) - s2e / t)
        for fm in FORMS[:2]:
            a, x = form(fm, yy, Z, n)
            key = "fixedx/%s/%s/" % ("".join(map(str, mask)), fm)
            T.call(); T.state(key, wk, t)
            m = quiet(spreg.PanelRE, a, x, w, spat_diag=False)
            T.close(key + "components", (m.sigma2_epsilon, m.sigma2_mu, m.theta), (s2e, s2m, 1 - np.sqrt(s2e / (s2e + t * s2m))), 1e-7, atol=1e-10)
            Z1 = np.hstack([c, Z])
            Q = np.kron(np.eye(t) - np.ones((t, t)) / t, np.eye(n))
            P = Q + (np.eye(N) - Q) * (s2e / (s2e + t * s2m))
            S = np.array([1.0] + [1.0 / scale] * k)                # same problem in comparable units
            A = la.inv((Z1 * S).T @ P @ (Z1 * S))
            b = (A @ (Z1 * S).T @ P @ yy)
            u = yy - Z1 * S @ b
            s2 = sc(u.T @ P @ u) / N
            b, V = b * S[:, None], s2 * A * np.outer(S, S)
            T.close(key + "b", np.asarray(m.betas).ravel() / S, b.ravel() / S, 1e-7, atol=1e-8)
            T.close(key + "vm", np.asarray(m.vm) / np.outer(S, S), V / np.outer(S, S), 1e-6, atol=1e-8)
            T.eq(key + "hdf", int(m.hausman_df), len(v))
            if not v:
                T.true(key + "nohausman", np.isnan(m.hausman_stat) and np.isnan(m.hausman_p) and "Hausman" not in m.summary, m.hausman_stat)
                continue
            i1 = [j + 1 for j in v]
            dv = d.b[:len(v)] - b[i1]
            D = s2e * d.XtXi[:len(v), :len(v)] - V[np.ix_(i1, i1)]
            Sv = S[i1]
            if la.cond(D / np.outer(Sv, Sv)) < 1e8:
                h = sc(dv.T @ la.solve(D, dv))
                T.close(key + "hausman", (m.hausman_stat, m.hausman_p), (h, stats.chi2.sf(h, len(v))), 1e-5, atol=1e-8)


def fixedfe(T, models, wk, t, k):
    """fixed effects: regressors that do not change over time are left out and announced; nothing else changes"""
    w, W, y, X = data(wk, t, k, 0.8, 0.2)
    n = len(W)
    nm = ["a%d" % j for j in range(k)]
    for f in models:
        for mask in itertools.product((0, 1), repeat=k):            # 1: constant over time
            Z = np.hstack([np.tile(X[:n, [j]], (t, 1)) if g else X[:, [j]] for j, g in enumerate(mask)])
            v = [j for j, g in enumerate(mask) if not g]
            yy = y + Z.sum(1, keepdims=True)
            base = quiet(f, yy, Z[:, v], w, name_y="yy", name_x=[nm[j] for j in v]) if v else None
            for fm in FORMS[:2]:
                a, x = form(fm, yy, Z, n)
                if x.shape[1] > n:
                    continue
                key = "%s/%s/%s/" % (f.__name__, "".join(map(str, mask)), fm)
                T.call(); T.state(key, wk, t)
                if not v:
                    T.raises(key + "all fixed", lambda: quiet(f, a, x, w))
                    continue
                m = quiet(f, a, x, w, name_y="yy", name_x=list(nm))
                T.eq(key + "names", list(m.name_x), list(base.name_x))
                for o in ("betas", "vm", "u", "sig2", "logll"):
                    if hasattr(base, o):
                        T.close(key + o, getattr(m, o), getattr(base, o), 1e-6, atol=1e-9, shape=True)
                T.eq(key + "k", m.k, base.k)
                gone = [nm[j] for j in range(k) if j not in v]
                T.true(key + "announced", all(g in str(getattr(m, "warning", "")) for g in gone), getattr(m, "warning", None))
                mm = quiet(f, a, x, w)
                T.close(key + "noname", mm.betas, base.betas, 1e-6, atol=1e-9, shape=True)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def data(wk, t, k, mu, lam, rho=0.0, seed=0):
    w = worlds.make_w(wk)
    W = worlds.dense(w)
    n = len(W)
    rs = np.random.RandomState(seed + 7 * t + k)
    X = rs.randn(n * t, k) + np.tile(rs.randn(n, k), (t, 1)) + 1.5
    b = np.array([[1.2], [-0.7], [0.5], [0.3], [-0.6]])[:k]
    eps = mu * np.tile(rs.randn(n, 1), (t, 1)) + 0.8 * rs.randn(n * t, 1)
    A = W / max(1.0, np.abs(la.eigvals(W)).max())
    M = la.inv(np.eye(n) - lam * A)
    u = (eps.reshape(t, n) @ M.T).reshape(-1, 1)
    S = la.inv(np.eye(n) - rho * A)
    y = ((1 + X @ b + u).reshape(t, n) @ S.T).reshape(-1, 1)
    return w, W, y, X


def form(kind, y, X, n):
    """the same long panel in another layout: wide columns are variable by variable, period by period"""
    t, k = len(y) // n, X.shape[1]
    if kind.startswith("wide"):
        a = y.reshape(t, n).T.copy()
        B = np.hstack([X[:, j].reshape(t, n).T for j in range(k)])
    else:
        a, B = y.copy(), X.copy()
    if kind.endswith("df"):
        nm = lambda p, c: ["%s" % p] if c == 1 else ["%s%d" % (p, 70 + 10 * i) for i in range(c)]
        cx = sum([nm(chr(97 + j) * 2, t if kind.startswith("wide") else 1) for j in range(k)], [])
        return pd.DataFrame(a, columns=nm("yy", a.shape[1])), pd.DataFrame(B, columns=cx)
    return a, B


def plag(W, X, t):
    return np.vstack([W @ b for b in np.vsplit(X, t)])


def slx(W, X, t, lags, mask):
    m = np.array([True] * X.shape[1] if isinstance(mask, str) else mask, bool)
    out, L = [X], X[:, m]
    for _ in range(lags):
        L = plag(W, L, t)
        out.append(L)
    return np.hstack(out)


def means(A, n):
    t = len(A) // n
    return A.reshape(t, n, -1).mean(0)


def masks(k):
    return [(0, "all"), (1, "all"), (2, "all")] + [(1, list(m)) for m in itertools.product((True, False), repeat=k) if 0 < sum(m) < k]


def run(case, T):
    if case[0] == "signs":
        return signs(T, *case[1:])
    if case[0] == "fixedfe":
        return fixedfe(T, [spreg.PanelFE], *case[1:])
    if case[0] == "fixedx":
        return fixedx(T, *case[1:])
    part, wk, t, k, mu, lam = case
    w, W, y, X = data(wk, t, k, mu, lam)
    (est if part == "est" else tests)(T, w, W, y, X, t, k)


def est(T, w, W, y, X, t, k):
    n, N = len(W), len(y)
    c = np.ones((N, 1))
    for lags, mask in masks(k):
        if lags and W.sum() == 0:
            continue
        Z = slx(W, X, t, lags, mask)
        kz = Z.shape[1]
        if la.matrix_rank(np.hstack([c, Z])) <= kz or la.matrix_rank(means(Z, n) - means(Z, n).mean(0)) < min(kz, n - 1) or kz + 2 > n:
            continue
        kw = dict(slx_lags=lags, slx_vars=mask)
        tag = "%d_%s" % (lags, mask if isinstance(mask, str) else "".join("01"[v] for v in mask))
        yb, Zb = means(y, n), means(Z, n)
        for fm in FORMS:
            yy, xx = form(fm, y, X, n)
            # ---- pooled
            for rob in (None, "white"):
                key = "pool/%s/%s/%s/" % (tag, fm, rob)
                m = quiet(spreg.PooledOLS, yy, xx, w, robust=rob, spat_diag=False, **kw)
                T.call(); T.state(key)
                r = ref.ols(y, np.hstack([c, Z]))
                zcheck.inference(T, key, m, r.b, ref.white_ols(r) if rob else r.vm, df=r.n - r.k)
                T.close(key + "u", m.u, r.u, 1e-8, atol=1e-9)
                T.close(key + "predy", m.predy, r.predy, 1e-8, atol=1e-9)
                T.close(key + "fit", (m.sig2, m.n, m.k, m.t), (r.sig2, N, r.k, t), 1e-9)
                T.close(key + "logll", m.logll, -N / 2 * (np.log(2 * np.pi * r.sig2n) + 1), 1e-9)
                T.true(key + "nobsk", not hasattr(m, "bsk"), "diagnostics reported although not requested")
            # ---- fixed effects: least squares with one dummy per place
            key = "fe/%s/%s/" % (tag, fm)
            m = quiet(spreg.PanelFE, yy, xx, w, **kw)
            T.call(); T.state(key)
            Dm = np.tile(np.eye(n), (t, 1))
            d = ref.ols(y, np.hstack([Z, Dm]))
            b, fe = d.b[:kz], d.b[kz:]
            V = d.utu / (N - n) * d.XtXi[:kz, :kz]
            zcheck.inference(T, key, m, b, V)
            T.close(key + "u", m.u, d.u, 1e-8, atol=1e-9)
            T.close(key + "predy", m.predy, d.predy, 1e-8, atol=1e-9)
            T.close(key + "effects", m.fixed_effects, fe, 1e-8, atol=1e-9, shape=True)
            T.close(key + "mean", m.mean_mu_i, fe.mean(), 1e-8, atol=1e-9)
            T.close(key + "fit", (m.sig2, m.n, m.k, m.t), (d.utu / (N - n), N, kz, t), 1e-9)
            T.close(key + "logll", m.logll, -N / 2 * (np.log(2 * np.pi * d.utu / N) + 1), 1e-9)
            # ---- random effects: feasible GLS with the one-way error-component covariance
            key = "re/%s/%s/" % (tag, fm)
            if n - kz - 1 <= 0:
                continue
            m = quiet(spreg.PanelRE, yy, xx, w, spat_diag=False, **kw)
            T.call(); T.state(key)
            s2e = d.utu / (N - n - kz)
            bt = ref.ols(yb, np.hstack([np.ones((n, 1)), Zb]))
            s2b = bt.utu / (n - kz - 1)
            s2m = max(0.0, s2b - s2e / t)
            T.close(key + "components", (m.sigma2_epsilon, m.sigma2_mu, m.theta), (s2e, s2m, 1 - np.sqrt(s2e / (s2e + t * s2m))), 1e-8, atol=1e-10)
            T.eq(key + "warned", "negative" in (m.warning or ""), s2b - s2e / t < 0)
            Z1 = np.hstack([c, Z])
            Om = np.kron(np.ones((t, t)), np.eye(n)) * s2m + s2e * np.eye(N)
            P = la.inv(Om) * s2e
            A = la.inv(Z1.T @ P @ Z1)
            b1 = A @ Z1.T @ P @ y
            u = y - Z1 @ b1
            s2 = sc(u.T @ P @ u) / N
            zcheck.inference(T, key, m, b1, s2 * A)
            T.close(key + "u", m.u, u, 1e-8, atol=1e-9)
            T.close(key + "predy", m.predy, Z1 @ b1, 1e-8, atol=1e-9)
            T.close(key + "fit", (m.sig2, m.n, m.k, m.t), (s2, N, kz + 1, t), 1e-8)
            dv = b - b1[1:]
            VF = s2e * d.XtXi[:kz, :kz]
            D = VF - (s2 * A)[1:, 1:]
            if la.cond(D) < 1e10:
                h = sc(dv.T @ la.solve(D, dv))
                T.close(key + "hausman", (m.hausman_stat, m.hausman_df, m.hausman_p), (h, kz, stats.chi2.sf(h, kz)), 1e-5, atol=1e-8)


def sc(a):
    return np.asarray(a, float).item()


def lm_stats(W, y, Z, t):
    """Elhorst / Anselin et al. LM tests of the pooled regression"""
    N = len(y)
    o = ref.ols(y, Z)
    s = o.utu / N
    K = np.kron(np.eye(t), W)
    tr = np.trace(W @ W + W.T @ W)
    Wxb = K @ o.predy
    M = np.eye(N) - Z @ o.XtXi @ Z.T
    q = sc(Wxb.T @ M @ Wxb)
    dl, de = sc(o.u.T @ K @ y), sc(o.u.T @ K @ o.u)
    return o, tr, q, dl, de


def tests(T, w, W, y, X, t, k):
    n, N = len(W), len(y)
    Z = np.hstack([np.ones((N, 1)), X])
    o, tr, q, dl, de = lm_stats(W, y, Z, t)
    s = o.sig2                          # the tests use the unbiased variance of the pooled regression
    J = q / s + t * tr
    want = {"panel_LMlag": (dl / s) ** 2 / J, "panel_LMerror": (de / s) ** 2 / (t * tr),
            "panel_rLMlag": (dl / s - de / s) ** 2 / (J - t * tr),
            "panel_rLMerror": (de / s - t * tr / J * dl / s) ** 2 / (t * tr * (1 - t * tr / J))}
    for fm in FORMS:
        yy, xx = form(fm, y, X, n)
        for f, v in want.items():
            got = quiet(getattr(DP, f), yy, xx, w)
            T.call(); T.state("lm/%s/%s" % (fm, f))
            if f == "panel_LMlag" and close(got[0], (dl / s) ** 2 / (q / s + tr * tr)) and not close(got[0], v):
                T.fail("lm/%s/panel_LMlag/squared_trace" % fm, "statistic %r, definition gives %r" % (float(got[0]), v))
                continue
            T.close("lm/%s/%s" % (fm, f), [float(g) for g in got], (v, stats.chi2.sf(v, 1)), 1e-6, atol=1e-10)
    bsk(T, w, W, y, X, Z, t, n, N)
    hausman(T, w, y, X)


def given(T, nm, k):
    # the same on given estimates: every pair of coefficient vectors and variances of the stated layout
    for seed in range(4):
        g = np.random.default_rng(seed)
        A, B = g.normal(size=(k, k)), g.normal(size=(k + 1, k + 1))
        extra = 1 if nm == "Lag" else 0
        A, B = g.normal(size=(k + extra, k + extra)), g.normal(size=(k + extra + 1, k + extra + 1))
        V = A @ A.T
        S = B @ B.T
        S[1:, 1:] += V
        a = "rho" if nm == "Lag" else "lam"
        f_ = types.SimpleNamespace(betas=g.normal(size=(k + 1, 1)), varb=V, k=k)
        r_ = types.SimpleNamespace(betas=g.normal(size=(k + 3, 1)), varb=S, k=k + 1)
        setattr(f_, a, .3); setattr(r_, a, .2)
        d = f_.betas[:k + extra] - r_.betas[1:k + extra + 1]
        h = sc(d.T @ la.solve(S[1:, 1:] - V, d))       # with the variances in the order of the finding above
        got = [float(np.asarray(v).item()) for v in quiet(DP.panel_Hausman, f_, r_)]
        T.state("hausman/stub", nm, seed)
        if close(got[0], h):
            T.close("hausman/%s/given/p" % nm, got[1], stats.chi2.sf(h, r_.k), 1e-9, atol=1e-300)
            T.fail("hausman/%s/given/sign" % nm, "statistic %r, definition gives %r" % (got[0], -h))
        else:
            T.close("hausman/%s/given" % nm, got, (-h, stats.chi2.sf(-h, k + extra)), 1e-9)


def hausman(T, w, y, X):
    """(b_fe - b_re)' (V_fe - V_re)^-1 (b_fe - b_re) over the coefficients both models estimate"""
    k = X.shape[1]
    for nm in ("Lag", "Error"):
        fe = quiet(getattr(spreg, "Panel_FE_" + nm), y, X, w)
        given(T, nm, k)
        try:
            re = quiet(getattr(spreg, "Panel_RE_" + nm), y, X, w)
        except (la.LinAlgError, ValueError):
            continue            # known finding of P27: Panel_RE_Error does not get through its search
        T.call(); T.state("hausman/" + nm)
        m = k + (nm == "Lag")
        d = np.asarray(fe.betas, float)[:m] - np.asarray(re.betas, float)[1:m + 1]
        D = np.asarray(fe.varb)[:m, :m] - np.asarray(re.varb)[1:m + 1, 1:m + 1]
        h = sc(d.T @ la.solve(D, d))
        got = [float(v) for v in quiet(DP.panel_Hausman, fe, re)]
        if close(got[0], -h) and abs(got[1] - stats.chi2.sf(-h, re.k)) < 1e-9:
            T.fail("hausman/%s/sign" % nm, "statistic %r, definition gives %r" % (got[0], h))
        else:
            T.close("hausman/" + nm, got, (h, stats.chi2.sf(h, m)), 1e-6)
        T.raises("hausman/mixed", lambda: DP.panel_Hausman(fe, quiet(spreg.PanelRE, y, X, w)), Exception)


def close(a, b):
    return abs(float(a) - b) <= 1e-6 * max(1e-12, abs(b))


def bsk_pool(W, o, t):
    n, N = len(W), len(o.u)
    u = o.u
    G = sc(u.T @ np.kron(np.ones((t, t)), np.eye(n)) @ u) / o.utu - 1
    H = sc(u.T @ np.kron(np.eye(t), (W + W.T) / 2) @ u) / o.utu
    b = np.trace((W + W.T) @ (W + W.T)) / 2
    l1, l2 = np.sqrt(N / (2 * (t - 1))) * G, np.sqrt(n * n * t / b) * H
    # one-sided tests and their chi-bar-square joint version
    j = max(l1, 0) ** 2 + max(l2, 0) ** 2
    if l1 > 0 and l2 > 0:
        pj = 0.5 * stats.chi2.sf(j, 1) + 0.25 * stats.chi2.sf(j, 2)
    elif l1 > 0 or l2 > 0:
        pj = 0.5 * stats.chi2.sf(j, 1)
    else:
        pj = 1.0
    return {"LM Marginal RE (LM1)": (l1, 1, stats.norm.sf(l1)), "LM Marginal Spatial (LM2)": (l2, 1, stats.norm.sf(l2)), "LM Joint (LMJ)": (j, 2, pj)}


def bsk_spatial(W, u, t):
    n = len(W)
    Jb = np.ones((t, t)) / t
    E = np.eye(t) - Jb
    sv = sc(u.T @ np.kron(E, np.eye(n)) @ u) / (n * (t - 1))
    s1 = sc(u.T @ np.kron(Jb, np.eye(n)) @ u) / n
    D = 0.5 * sc(u.T @ (sv / s1 ** 2 * np.kron(Jb, W.T + W) + np.kron(E, W.T + W) / sv) @ u)
    b = np.trace(W.T @ W + W @ W)
    v = D / np.sqrt((t - 1 + sv ** 2 / s1 ** 2) * b)
    return {"LM Conditional Spatial": (v, 1, stats.norm.sf(v))}


def bsk_re(W, u, lam, t):
    """score of the random-effects variance at zero over the square root of its information, given the spatial error"""
    n = len(W)
    B = np.eye(n) - lam * W
    BB = B.T @ B
    s2 = sc(u.T @ np.kron(np.eye(t), BB) @ u) / (n * t)
    O = s2 * np.kron(np.eye(t), la.inv(BB))
    Oi = la.inv(O)
    WB = W.T @ B + B.T @ W
    dO = [np.kron(np.ones((t, t)), np.eye(n)),                               # random-effects variance
          s2 * np.kron(np.eye(t), la.inv(BB) @ WB @ la.inv(BB)),             # spatial parameter
          np.kron(np.eye(t), la.inv(BB))]                                    # disturbance variance
    Q = [Oi @ d for d in dO]
    I = np.array([[0.5 * (a * b.T).sum() for b in Q] for a in Q])
    D = -0.5 * np.trace(Q[0]) + 0.5 * sc(u.T @ Oi @ dO[0] @ Oi @ u)
    v = D * np.sqrt(la.inv(I)[0, 0])
    return {"LM Conditional RE": (v, 1, stats.norm.sf(v))}


ORDER = ["LM Marginal RE (LM1)", "LM Marginal Spatial (LM2)", "LM Joint (LMJ)", "LM Conditional Spatial", "LM Conditional RE"]
SHORT = ["LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE"]


def table(T, key, got, want):
    T.eq(key + "/names", list(got["Test"]), [t for t in ORDER if t in want])
    for _, r in got.iterrows():
        T.close("%s/%s" % (key, SHORT[ORDER.index(r["Test"])]), (float(r["Statistic"]), r["df"], float(r["p-value"])), want[r["Test"]], 1e-6, atol=1e-8)


def bsk(T, w, W, y, X, Z, t, n, N):
    o = ref.ols(y, Z)
    pool = quiet(spreg.PooledOLS, y, X, w, spat_diag=False)
    re = quiet(spreg.PanelRE, y, X, w, spat_diag=False)
    ml = quiet(spreg.ML_ErrorPooled, y, X, w, nonspat_diag=False)
    gm = quiet(spreg.GM_ErrorPooled, y, X, w, nonspat_diag=False)
    ure = y - Z @ re.betas
    want = {}
    want.update(bsk_pool(W, o, t))
    want.update(bsk_spatial(W, ure, t))
    w_ml = bsk_re(W, y - Z @ ml.betas[:-1], sc(ml.betas[-1]), t)
    w_gm = bsk_re(W, y - Z @ gm.betas[:-1], sc(gm.betas[-1]), t)
    sub = [list(s) for r in range(1, 6) for s in itertools.combinations(SHORT, r)]
    for nm, reg in (("pool", pool), ("re", re), ("ml", ml), ("gm", gm)):
        for which in ["all"] + SHORT + sub:
            for g in (False, True):
                if g and nm not in ("pool", "re"):
                    continue
                ss = SHORT if which == "all" else [which] if isinstance(which, str) else which
                if nm != "pool" and len(ss) > 2 and len(ss) < 5:
                    continue
                key = "bsk/%s/%s/%d" % (nm, which if isinstance(which, str) else "+".join(which), g)
                T.call(); T.state(key)
                ww = dict(want)
                ww.update(w_gm if nm == "gm" or g else w_ml)
                try:
                    got = quiet(DP.BSK_tests, reg, w, which=which, GM_BSK=g)
                except Exception as e:
                    T.fail(key + "/raises", "%s: %s" % (type(e).__name__, e))
                    continue
                table(T, key, got, {ORDER[SHORT.index(s)]: ww[ORDER[SHORT.index(s)]] for s in ss})
    # as attached to the estimators, whatever the layout of the data
    for fm in FORMS:
        yy, xx = form(fm, y, X, n)
        for lst in [["LMJ", "LM1", "LM2"], "all", ["LM2"], ["LMC_RE"]]:
            ss = SHORT if lst == "all" else lst
            ww = dict(want); ww.update(w_ml)
            try:
                m = quiet(spreg.PooledOLS, yy, xx, w, BSK_list=lst)
            except Exception as e:
                T.fail("att/pool/%s/%s/raises" % (fm, "+".join(ss)), "%s: %s" % (type(e).__name__, e))
                continue
            table(T, "att/pool/%s/%s" % (fm, "+".join(ss)), m.bsk, {ORDER[SHORT.index(s)]: ww[ORDER[SHORT.index(s)]] for s in ss})
        table(T, "att/re/%s" % fm, quiet(spreg.PanelRE, yy, xx, w).bsk, bsk_spatial(W, ure, t))
        table(T, "att/ml/%s" % fm, quiet(spreg.ML_ErrorPooled, yy, xx, w).bsk, w_ml)
        table(T, "att/gm/%s" % fm, quiet(spreg.GM_ErrorPooled, yy, xx, w).bsk, w_gm)
        T.call(7)
