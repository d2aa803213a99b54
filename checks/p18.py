"""P18: results transform correctly under change of units."""
import contextlib, io, re
import numpy as np
import allest, deep, worlds

META = {"rule": "a state is (estimator configuration, change of units); coefficients, variances, residuals, predictions, likelihoods and every test of the re-expressed data are compared with the exactly implied transformation of the original results",
        "assumptions": ["probit by BFGS: regressors of sizes within a factor 1000", "iteratively optimised spatial parameters agree to 2e-4, closed forms to 1e-6", "row-standardised weights without islands, so that shifts pass through spatial lags"]}

VARS = {"y": ["resp"], "x": ["inc", "hov"], "yend": ["price"]}
SKIP = ("NSLX", "Endog_Regimes")
EQ = {"bigX": {0: ["xa", "xb"], 1: ["xc", "xd", "xe"]}, "bigyend": {0: ["ea"], 1: ["eb"]}}


def quiet(f, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(**kw)


def changes(args):
    """name -> dict role -> (scale vector, shift vector)"""
    out = {}
    bin_ = "ybin" in args
    sur = "sy" in args
    if not bin_:
        for c in (1e-9, 1e-3, 8.0, 1e4, 1e8):
            out["y*%g" % c] = {"y": (c, 0.0)}
        out["y+20"] = {"y": (1.0, 20.0)}
    out["x0*1000"] = {"x": ([1000.0, 1.0], [0, 0])}
    for tiny in (1e-8, 1e-10):
        out["x0*%g" % tiny] = {"x": ([tiny, 1.0], [0, 0])}
    out["x1*1e7"] = {"x": ([1.0, 1e7], [0, 0])}
    out["x1*.001"] = {"x": ([1.0, 0.001], [0, 0])}
    out["x0+10"] = {"x": ([1.0, 1.0], [10.0, 0])}
    out["x1-20"] = {"x": ([1.0, 1.0], [0, -20.0])}
    if not bin_:
        out["both"] = {"y": (100.0, 0.0), "x": ([0.1, 30.0], [0, 0])}
    if "yend" in args or "se" in args:
        out["yend*1000"] = {"yend": ([1000.0], [0])}
        out["yend+7"] = {"yend": ([1.0], [7.0])}
        out["q*.01"] = {"q": ([0.01, 1.0], [0, 0])}
        out["q+9"] = {"q": ([1.0, 1.0], [9.0, 0])}
    return out


def tr(v, sc, sh, const=False):
    sc, sh = np.atleast_1d(np.asarray(sc, float)), np.atleast_1d(np.asarray(sh, float))
    if v.ndim == 1:
        return v * sc[0] + sh[0]
    k = v.shape[1] - const
    if sc.size == 1:
        return v * sc[0] + sh[0]
    if k == sc.size:
        S, H = sc, sh
    elif k % sc.size == 0:       # wide panels: t columns per variable, variable by variable
        t = k // sc.size
        S, H = np.repeat(sc, t), np.repeat(sh, t)
    else:                        # extra regressors stay as they are
        S, H = np.r_[sc, np.ones(k - sc.size)], np.r_[sh, np.zeros(k - sc.size)]
    if const:
        S, H = np.r_[1.0, S], np.r_[0.0, H]
    return v * S + H


ROLE = {"y": "y", "x": "x", "yend": "yend", "q": "q", "bigy": "y", "bigX": "x", "bigyend": "yend", "bigq": "q"}


def changed(key, ch):
    f, kw = allest.make(key)
    for k in kw:
        if ROLE.get(k) in ch:
            sc, sh = ch[ROLE[k]]
            if isinstance(kw[k], dict):
                kw[k] = {r: tr(a, sc, sh, k == "bigX") for r, a in kw[k].items()}
            else:
                kw[k] = tr(kw[k], sc, sh)
    return f, kw


def cases(tier):
    out = []
    for k, (f, args, opt) in allest.CONF.items():
        if any(s in k for s in SKIP) or k.startswith("Panel_"):
            continue
        for c in changes(args):
            if ("1e-08" in c or "1e-10" in c or "1e7" in c) and opt.get("optim") == "bfgs":
                continue        # BFGS itself does not cope with regressors of such different sizes (probit sets its warning)
            if k in ("OLS_Regimes/mix", "ML_Error_Regimes/mix") and any(s in c for s in ("+", "x1-")):
                continue        # one intercept for all regimes does not absorb regime-specific shifts
            out.append(("%s/%s" % (k, c), (k, c)))
    return out


_base = {}


def original(key):
    if key not in _base:
        f, kw = allest.make(key)
        _base[key] = quiet(f, kw)
    return _base[key]


def scale_of(name, ch, spatial=("lambda",)):
    """factor of the coefficient carried by a named row (None: constant term, changes with shifts)"""
    c = float(np.atleast_1d(ch.get("y", (1.0, 0))[0])[0])
    nm = str(name)
    tail = nm.split("_")[-1]
    if re.search(r"(^|_)W\d*_", nm) and tail in ("resp", "ya", "yb"):
        return 1.0
    if tail == "phi":
        return 1.0
    if nm.strip().startswith("sigma2"):
        return c * c
    if nm.endswith(("W_dep_var", "lambda")) or tail in ("lambda", "lambda1", "lambda2"):
        return 1.0
    for role, vs in VARS.items():
        if role != "y" and tail in vs:
            return c / float(np.atleast_1d(ch.get(role, ([1.0] * 9,))[0])[vs.index(tail)])
    return c


def has_shift(ch):
    return any(np.any(np.asarray(v[1], float) != 0) for v in ch.values())


def is_const(name):
    return "constant" in str(name).lower()


SCALAR = {"sig2": 2, "sig2n": 2, "sig2n_k": 2, "utu": 2, "sigma2": 2, "mean_y": None, "std_y": 1}
VEC = {"u": 1, "e_filtered": 1, "e_pred": 1, "predy": 1, "predy_e": 1}
INV = ["r2", "ar2", "pr2", "pr2_e", "f_stat", "jarque_bera", "breusch_pagan", "koenker_bassett", "white", "vif", "lm_error", "rlm_error", "lm_lag", "rlm_lag", "lm_sarma", "lm_wx", "lm_slx", "lm_spdurbin",
       "rlm_wx", "rlm_durlag", "moran_res", "ak_test", "cfh_test", "cfh", "dwh", "sp_multipliers", "rho", "LR", "mcfadden", "Pinkse_error", "KP_error", "PS_error", "predpc", "lrtest", "lmtest", "lmEtest", "lmlagtest", "corr",
       "surchow", "joinrho", "lamsur", "lamgm", "lamtest", "joinlam", "likrlambda", "hausman", "lmtest", "theta", "theta1", "n", "k", "kr", "nr", "kf"]


def tol(key):
    f = key.split("/")[0]
    if any(s in f for s in ("GM_Error", "Endog_Error", "Combo", "GMM", "KKP", "SURerror", "ML_", "Probit")) or "iter" in key:
        return 2e-4
    return 1e-6


def cl(T, name, a, b, rtol):
    b = np.asarray(b, float)
    T.close(name, a, b, rtol=rtol, atol=1e-9 + rtol * (np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0))


def run(case, T):
    key, cname = case
    args = allest.CONF[key][1]
    ch = changes(args)[cname]
    m0 = original(key)
    f, kw = changed(key, ch)
    T.call(); T.state(*case)
    m1 = quiet(f, kw)
    rtol = tol(key)
    if key.startswith("GM_Endog_Error_Het") and m1.betas.shape[0] and np.any(np.abs(np.abs(np.asarray(m1.betas).ravel()) - 0.9) < 1e-12):
        T.fail("clipped", "an endogenous coefficient is forced to +-0.9 in these units")
        return
    if "sy" in args:
        return run_sur(key, ch, m0, m1, T, rtol)
    model(T, "", m0, m1, ch, rtol, key)
    if hasattr(m0, "multi"):
        for r in m0.multi:
            model(T, "multi[%s]/" % r, m0.multi[r], m1.multi[r], ch, rtol, key)


def model(T, pre, m0, m1, ch, rtol, key):
    c, d = (float(np.atleast_1d(v)[0]) for v in ch.get("y", (1.0, 0.0)))
    shift = has_shift(ch)
    probit = key.startswith("Probit")
    if probit:
        c = 1.0
    n = m0.n
    if pre == "" and hasattr(m0, "output"):
        o0, o1 = m0.output, m1.output
        T.eq(pre + "names", list(o1["var_names"]), list(o0["var_names"]))
        for i, nm in enumerate(o0["var_names"]):
            con = is_const(nm)
            if con and shift:
                continue
            s = scale_of(nm, ch)
            if key.startswith("ML_LagRE") and "y" in ch and c != 1.0:
                # printed information matrix mixes units: one finding, the coefficients are still compared
                cl(T, pre + "coef/" + str(nm), o1["coefficients"].iloc[i], float(o0["coefficients"].iloc[i]) * s, rtol)
                if i == 0:
                    got = np.sqrt(np.abs(np.diag(m1.vm)))
                    sv = np.array([scale_of(v, ch) for v in o0["var_names"]])[:got.size]
                    cl(T, "vm_units", got, np.sqrt(np.abs(np.diag(m0.vm))) * sv, rtol)
                continue
            if o0["std_err"].iloc[i] is None or not np.isscalar(o0["std_err"].iloc[i]) or o0["coefficients"].iloc[i] is None:
                if o0["coefficients"].iloc[i] is not None:
                    cl(T, pre + "coef/" + str(nm), o1["coefficients"].iloc[i], float(np.asarray(o0["coefficients"].iloc[i]).item()) * s, rtol)
                continue
            b0, s0, z0 = (float(o0[k].iloc[i]) for k in ("coefficients", "std_err", "zt_stat"))
            b1, s1, z1 = (float(o1[k].iloc[i]) for k in ("coefficients", "std_err", "zt_stat"))
            T.close(pre + "coef/" + str(nm), b1, b0 * s, rtol=rtol, atol=rtol * (abs(b0 * s) + abs(s0 * s)) + 1e-12 * abs(s))
            T.close(pre + "se/" + str(nm), s1, s0 * s, rtol=rtol, atol=rtol * abs(s0 * s))
            T.close(pre + "z/" + str(nm), z1, z0, rtol=rtol, atol=rtol * (1 + abs(z0)))
    elif pre and not shift and hasattr(m0, "betas"):
        pass
    for a, p in VEC.items():
        if getattr(m0, a, None) is None or not isinstance(getattr(m0, a), np.ndarray) or probit:
            continue
        w = np.asarray(getattr(m0, a), float) * c
        if a in ("predy", "predy_e") and d:
            if np.any(w) and not key.split("/")[0].endswith(("FE", "RE")):
                w = w + d
            else:
                continue
        cl(T, pre + a, getattr(m1, a), w, rtol * (3 if a == "predy_e" else 1))
    for a, p in SCALAR.items():
        if p is not None and getattr(m0, a, None) is not None and not probit:
            cl(T, pre + a, getattr(m1, a), np.asarray(getattr(m0, a), float) * c ** p, rtol)
    for a in ("logll",):
        if getattr(m0, a, None) is not None:
            T.close(pre + a, getattr(m1, a), float(np.asarray(m0.logll).item()) - (0 if probit else n * np.log(c)), rtol=rtol)
    for a in ("aic", "schwarz"):
        if getattr(m0, a, None) is not None and isinstance(getattr(m0, a), (float, np.floating)):
            T.close(pre + a, getattr(m1, a), float(getattr(m0, a)) + (0 if probit else 2 * n * np.log(c)), rtol=rtol, atol=rtol * abs(float(m0.aic)))
    for a in INV:
        # the heteroskedasticity tests use squared regressors: scale but not shift invariant
        if shift and a in ("breusch_pagan", "koenker_bassett", "white"):
            continue
        if hasattr(m0, a) and getattr(m0, a) is not None:
            A, B = deep.flatten(getattr(m0, a)), deep.flatten(getattr(m1, a))
            for k in A:
                if A[k][0] == "a":
                    cl(T, pre + a + k, B[k][1], A[k][1], rtol * 5)
    if hasattr(m0, "chow") and not isinstance(m0.chow, str):
        ch0, ch1 = m0.chow, m1.chow
        cl(T, pre + "chow/joint", np.asarray(ch1.joint).ravel(), np.asarray(ch0.joint).ravel(), rtol * 10)
        if not shift:
            cl(T, pre + "chow/regi", ch1.regi, ch0.regi, rtol * 10)
        else:
            cl(T, pre + "chow/regi", np.asarray(ch1.regi)[1:], np.asarray(ch0.regi)[1:], rtol * 10)


def run_sur(key, ch, m0, m1, T, rtol):
    c, d = (float(np.atleast_1d(v)[0]) for v in ch.get("y", (1.0, 0.0)))
    shift = has_shift(ch)
    b0 = m0.b3SLS if hasattr(m0, "b3SLS") else m0.bSUR
    b1 = m1.b3SLS if hasattr(m1, "b3SLS") else m1.bSUR
    s0 = m0.tsls_inf if hasattr(m0, "b3SLS") else m0.sur_inf
    s1 = m1.tsls_inf if hasattr(m1, "b3SLS") else m1.sur_inf
    for r in b0:
        names = list(m0.name_bigX[r]) + (list(m0.name_bigyend[r]) if hasattr(m0, "b3SLS") else [])
        T.eq("names/%d" % r, len(names), b0[r].shape[0])
        for i, nm in enumerate(names):
            if is_const(nm) and shift:
                continue
            tail = str(nm).split("_")[-1]
            s = c
            if tail in ("ya", "yb"):
                s = 1.0
            for role, big in (("x", "bigX"), ("yend", "bigyend")):
                if tail in EQ[big][r] and role in ch:
                    j = EQ[big][r].index(tail)
                    sc = ch[role][0]
                    s = c / (sc[j] if j < len(sc) else 1.0)
            cl(T, "coef/%s" % nm, b1[r][i], b0[r][i] * s, rtol * 3)
            cl(T, "se/%s" % nm, s1[r][i, 0], s0[r][i, 0] * s, rtol * 3)
            cl(T, "z/%s" % nm, s1[r][i, 1], s0[r][i, 1], rtol * 10)
    cl(T, "sig", m1.sig, np.asarray(m0.sig) * c * c, rtol)
    cl(T, "bigE", m1.bigE, np.asarray(m0.bigE) * c, rtol)
    for a in ("llik", "surerrllik", "errllik", "surerrlik"):
        if getattr(m0, a, None) is not None:
            T.close(a, getattr(m1, a), float(getattr(m0, a)) - m0.n * m0.n_eq * np.log(c), rtol=rtol)
    for a in INV:
        if hasattr(m0, a) and getattr(m0, a) is not None:
            if a == "surchow" and (shift or len(ch) > 0 and "y" not in ch):
                continue
            A, B = deep.flatten(getattr(m0, a)), deep.flatten(getattr(m1, a))
            for k in A:
                if A[k][0] == "a":
                    cl(T, a + k, B[k][1], A[k][1], rtol * 10)
