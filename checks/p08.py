"""P08: jointly estimated regimes models equal the estimator on the explicit interaction design."""
import itertools, re
import numpy as np
from scipy import stats
import ref, worlds, regs
import ref_gmm as gm
import ref_ml as ml
from p01 import slx_names
from p05 import lam_ok

META = {"rule": "a state is one (estimator, weights, regime layout, mask of varying coefficients incl. constant and endogenous, options) joint regimes estimation, compared with an independent reference on the explicit interaction design",
        "assumptions": ["external and spatial instruments always vary by regime",
                        "joint error models: the filtered columns are split by regime for the coefficients; with weights that link regimes this differs from filtering the interaction design (known finding filter_split); without such links both coincide and the plain design is the reference"]}

OPTS = {
    "ols": [{}, {"robust": "white"}, {"robust": "hac"}, {"sig2n_k": False}, {"regime_err_sep": True}, {"regime_err_sep": True, "sig2n_k": False},
            {"robust": "hac", "regime_err_sep": True}],
    "tsls": [{"robust": "hac", "regime_err_sep": True}, {}, {"robust": "white"}, {"robust": "hac"}, {"robust": "ogmm"}, {"sig2n_k": False}, {"sig2n_k": False, "robust": "ogmm"}],
    "gmlag": [{"robust": None}, {"robust": "white", "regime_err_sep": True}, {"robust": "hac", "regime_err_sep": True}, {"robust": "white"}, {"robust": "hac"}, {"robust": None, "sig2n_k": True}, {"robust": None, "w_lags": 2}, {"robust": None, "lag_q": False},
              {"robust": None, "regime_lag_sep": True, "regime_err_sep": True}, {"robust": "white", "regime_lag_sep": True, "regime_err_sep": True, "w_lags": 2}, {"robust": "hac", "regime_lag_sep": True, "regime_err_sep": True}],
    "error": [{}], "endog": [{}], "combo": [{}, {"w_lags": 2}],
    "error_het": [{}, {"step1c": True}, {"max_iter": 3}], "endog_het": [{}, {"step1c": True}, {"max_iter": 3}], "combo_het": [{}, {"step1c": True}],
    "error_hom": [{"A1": "hom_sc"}, {"A1": "hom"}, {"A1": "het", "max_iter": 3}], "endog_hom": [{"A1": "hom_sc"}, {"A1": "hom"}, {"A1": "het", "max_iter": 3}], "combo_hom": [{"A1": "het"}, {"A1": "hom_sc", "w_lags": 2}],
    "mllag": [{"method": "full"}, {"method": "ord"}, {"method": "LU"}], "mlerr": [{"method": "full"}, {"method": "ord"}, {"method": "LU"}],
}


def cases(tier):
    out = []
    ws = ["rook:6x8", "blk:6x8"] if tier == "quick" else ["rook:6x8", "blk:6x8", "odd:6x8", "knn:6x9", "strid:6x8", "rooks:6x8"]
    ks = ["cols", "three"] if tier == "quick" else ["cols", "rows_s", "three_s", "three", "alt", "uneq", "flt"]
    for f in regs.FAM:
        for wk in ws:
            for rk in ks:
                if wk.startswith("blk") and (rk in ("alt", "three") or f in ("ols", "tsls")):
                    continue
                out.append(("%s/%s/%s" % (f, wk, rk), (f, wk, rk, 0, tier)))
                if wk.startswith("rook:") or tier == "thorough":
                    out.append(("%s/%s/%s/slx1" % (f, wk, rk), (f, wk, rk, 1, tier)))
                    if not f.startswith(("endog", "combo")):
                        for sv in ((1, (True, False)), (1, (False, True)), (2, (False, True))):
                            out.append(("%s/%s/%s/slx%d_%s" % (f, wk, rk, sv[0], "".join("01"[b] for b in sv[1])), (f, wk, rk, sv, tier)))
        out.append(("%s/rook:8x10/five" % f, (f, "rook:8x10", "five", 0, tier)))
        if not f.startswith(("endog", "combo")):
            for rk, wk in (("five", "rook:8x10"), ("cols", "rook:6x8")):
                for sl in (1, 2):
                    if rk == "five" or sl == 2:
                        out.append(("%s/%s/%s/slx%d_11" % (f, wk, rk, sl), (f, wk, rk, sl, tier)))
    return out


def build(f, wk, rk, seed, k=2, e=3):
    a, b = (int(s) for s in wk.split(":")[1].split("x"))
    lab = regs.regimes(rk, a, b)
    base = "rook:%dx%d" % (a, b) if wk.startswith("blk") else wk
    wd = worlds.World(base, k=k, e=e, m=e + 1, rho=0.35 if regs.FAM[f][3] else 0.0, lam=0.3, seed=seed, noise=0.7)
    if wk.startswith("blk"):        # no link between regimes
        same = np.array([[p == q for q in lab] for p in lab])
        wd.w = worlds.from_adj(wd.W * same)
        wd.w.transform = "r"
        wd.W = worlds.dense(wd.w)
    if "het" in f:
        wd.yend = 4 * wd.yend
    s = sorted(set(lab))
    wd.y = wd.y + np.array([[0.7 * s.index(l)] for l in lab]) * wd.x[:, :1]
    return wd, lab


def run(case, T):
    f, wk, rk, slx, tier = case
    for seed in ((5,) if tier == "quick" else (5, 6)):
        wd, lab = build(f, wk, rk, seed)
        es = {0: [0], 1: [1, 2, 3] if f == "tsls" else [1, 2], None: [0, 1, 2]}[regs.FAM[f][2]]
        for ee in es:
            sl, sm = slx if isinstance(slx, tuple) else (slx, (True, True))
            kx = 2 + sl * sum(sm)
            masks = list(itertools.product([True, False], repeat=kx + ee)) if (not slx or (f in ("gmlag", "mllag") and kx <= 4 and not ee)) else [(True,) * (kx + ee), ((True, False, False, True) * kx)[:kx] + (False,) * ee, ((False, True) * kx)[:kx] + (True,) * ee, ((True, True) + (False,) * kx)[:kx] + (True,) * ee, ((True,) * 4 + (False,) * kx)[:kx] + (True,) * ee, ((False, False) + (True,) * kx)[:kx] + (True,) * ee]
            for mask in masks:
                for cons in ("many", "one"):
                    if cons == "one" and not any(mask):
                        continue
                    if ee > 1 and (cons == "one" or mask[0] or slx) and tier == "quick":
                        continue
                    for opt in OPTS[f]:
                        full = all(mask) and cons == "many"
                        if opt.get("regime_err_sep") and full:
                            continue
                        if ee == 0 and opt.get("lag_q") is False:
                            continue
                        if (slx or ee > 1) and opt is not OPTS[f][0]:
                            continue
                        if tier == "quick" and wk.startswith("blk") and opt is not OPTS[f][0]:
                            continue
                        for form in ((0, 1) if full else (0,)):       # mask given as list or as 'all'
                            key = "s%d/e%d/%s%s/%s%s/" % (seed, ee, cons, "".join("01"[v] for v in mask), ",".join("%s=%s" % kv for kv in sorted(opt.items())), "/all" if form else "")
                            one(T, key, f, wd, lab, list(mask), cons, dict(opt), ee, slx, form)


def one(T, key, f, wd, lab, mask, cons, opt, ee, slx, form):
    RC, PC, e, lag, sepkw = regs.FAM[f]
    kw = dict(opt)
    if opt.get("regime_lag_sep"):
        kw["spat_diag"] = False
    kw.update(name_y="yy", name_x=["al", "be"], name_regimes="reg", constant_regi=cons, cols2regi="all" if form else list(mask))
    if f in regs.NEEDS_W or slx:
        kw["w"] = wd.w
    if ee:
        yend, q = wd.yend[:, :ee], wd.q[:, :ee + 1]
        kw.update(yend=yend, q=q, name_yend=["ena", "enb", "enc"][:ee], name_q=["qa", "qb", "qc", "qd"][:ee + 1])
    sm = None
    if isinstance(slx, tuple):
        slx, sm = slx[0], list(slx[1])
        kw["slx_vars"] = list(sm)
    if slx:
        kw["slx_lags"] = slx
    K = None
    if opt.get("robust") == "hac":
        kw["gwk"] = wd.kernel()
        K = worlds.dense(kw["gwk"])
    if f == "ols":
        kw.setdefault("regime_err_sep", False)
    if f in ("tsls", "gmlag"):
        kw.setdefault("regime_err_sep", False)
    if f in ("gmlag", "mllag"):
        kw["spat_impacts"] = "full"
    m = regs.cls(RC)(wd.y, wd.x, regimes=list(lab), **kw)
    T.call(); T.state(key, f)
    # explicit design
    rset = sorted(set(lab))
    shown = [int(r) if isinstance(r, float) else r for r in rset]
    n, W = wd.n, wd.W
    xs, names = wd.x, ["al", "be"]
    if slx:
        xs = np.hstack([wd.x, ref.wlags(W, wd.x[:, sm or [True, True]], slx)])
        names = names + slx_names(names, sm or [True, True], slx)
    Xc = np.hstack([np.ones((n, 1)), xs])
    fx = [cons == "many"] + mask[:xs.shape[1]]
    fe = mask[xs.shape[1]:]
    sx = lambda A: regs.split(A, fx, lab, rset)
    X = sx(Xc)
    nmx = regs.split_names(["CONSTANT"] + names, fx, shown)
    Ec, Qc, nmE = (yend, q, ["ena", "enb", "enc"][:ee]) if ee else (None, None, [])
    if lag and f != "mllag":
        Wl = W
        if opt.get("regime_lag_sep"):
            same = np.array([[p == q for q in lab] for p in lab])
            wu = worlds.from_adj(W * same, list(wd.w.id_order))
            wu.transform = "r"
            Wl = worlds.dense(wu)
        _, Ec, Qc = ref.gm_lag_parts(wd.y, np.hstack([np.ones((n, 1)), wd.x]), Wl, Ec, Qc, opt.get("w_lags", 1), opt.get("lag_q", True), slx, "all")
        nmE = nmE + ["W_yy"]
        fe = fe + [bool(opt.get("regime_lag_sep"))]
    se = lambda A: regs.split(A, fe, lab, rset)
    E = nme = H = None
    if Ec is not None:
        E, nme = se(Ec), regs.split_names(nmE, fe, shown)
        Q = regs.split(Qc, [True] * Qc.shape[1], lab, rset)
        H = np.hstack([X, Q])
        if H.shape[1] > n - 4 or np.linalg.matrix_rank(H / np.abs(H).max(0)) < H.shape[1]:
            return
    full_names = nmx + (nme or [])
    if f == "mllag":
        full_names = full_names + ["_Global_W_yy"]
    if f not in ("ols", "tsls", "gmlag", "mllag"):
        full_names = full_names + ["lambda"]
    got = list(m.name_z) if hasattr(m, "name_z") and f not in ("mllag",) else list(m.name_x)
    T.eq(key + "names", got, full_names)
    R = None
    if f in ("ols", "tsls", "gmlag"):
        R = linear(T, key, f, m, wd, X, E, H, opt, K, lab, rset, fx)
    elif f == "mllag":
        R = mllag(T, key, m, wd, X, opt)
    elif f == "mlerr":
        R = mlerr(T, key, m, wd, Xc, sx, opt, lab)
    else:
        R = gmm(T, key, f, m, wd, Xc, sx, Ec, se, H, opt)
    if R is None:
        return
    b, vm, tol = R
    table(T, key, m, f, full_names, b, vm, 10 * tol, [str(s) for s in shown])
    if opt.get("regime_lag_sep"):        # a spatial coefficient for every regime, weights without the links between regimes
        pe = np.zeros((n, 1))
        for r, s in zip(rset, shown):
            i = [j for j, l in enumerate(lab) if l == r]
            rho = float(np.asarray(m.betas)[full_names.index("%s_W_yy" % s), 0])
            xb = np.asarray(m.predy)[i] - rho * (Wl @ wd.y)[i]
            if abs(rho) < 1:
                pe[i] = np.linalg.solve(np.eye(len(i)) - rho * Wl[np.ix_(i, i)], xb)
        T.close(key + "predy_e", m.predy_e, pe, 1e-5, atol=1e-6 * np.abs(pe).max())
        if not slx and "Impacts computed" in str(m.summary):
            rows = re.findall(r"^\s*(\S+)_(al|be)\s+-?[\d.]+\s+-?[\d.]+\s+(-?[\d.]+)\s*$", m.summary.split("Impacts computed using the 'full' method.")[1], re.M)
            rows = [(float(t), float(np.asarray(m.betas)[full_names.index("%s_%s" % (g, v)), 0]) / (1 - float(np.asarray(m.betas)[full_names.index("%s_W_yy" % g), 0]))) for g, v, t in rows if g in map(str, shown)]
            T.close(key + "impacts_of_last_regime", [a for a, _ in rows], [c for _, c in rows], 1e-5, atol=6e-5)
    elif f in ("gmlag", "combo", "combo_het", "combo_hom", "mllag"):
        i = full_names.index("_Global_W_yy")
        rho = float(np.asarray(m.betas)[i, 0])
        T.close(key + "rho", m.rho, rho, 1e-12)
        if abs(rho) < 1:
            xb = np.asarray(m.predy) - rho * (W @ wd.y)
            pe = np.linalg.solve(np.eye(n) - rho * W, xb)
            ap = 1e-5 * np.abs(pe).max() / (1 - abs(rho))
            T.close(key + "predy_e", m.predy_e, pe, 1e-5, atol=ap)
            T.close(key + "e_pred", m.e_pred, wd.y - pe, 1e-5, atol=ap)
            if f in ("gmlag", "mllag") and kw["spat_impacts"] and np.allclose(W.sum(1), 1):
                impacts(T, key, m, full_names, W, rho, slx, sm)
            if slx and ee == 0 and f in ("gmlag", "mllag"):
                comfac(T, key, f, m, full_names, rho, slx)


def lag_of(name, L):
    """name of the L-th spatial lag of the (regime-prefixed) variable"""
    r, _, v = name.rpartition("_")
    return "%s_W%s_%s" % (r, "" if L == 1 else L, v)


def impacts(T, key, m, names, W, rho, slx, sm=None):
    """printed impacts: total = 1/(1-rho) x (own + lagged coefficients, of the same regime or common to all)"""
    b = dict(zip(names, np.asarray(m.betas).ravel()))
    own = [v for v in names if v.rpartition("_")[2] in ("al", "be") and "_W" not in v]
    lags = {}
    for v in own:
        if sm and not sm[["al", "be"].index(v.rpartition("_")[2])]:
            lags[v] = []
            continue
        lags[v] = [lag_of(v, L) if lag_of(v, L) in b else lag_of("_Global_" + v.rpartition("_")[2], L) for L in range(1, slx + 1)]
        if any(g not in b for g in lags[v]):    # common regressor whose lag varies by regime: no single impact
            T.true(key + "impacts_omitted", "Omitted since the spatial lags" in m.summary and m.sp_multipliers is None, v)
            return
    A = np.linalg.inv(np.eye(len(W)) - rho * W)
    T.close(key + "multiplier", m.sp_multipliers["full"][2], A.sum() / len(W), 1e-6)
    adi = np.trace(A) / len(W)
    txt = m.summary.split("Impacts computed using the 'full' method.")[1]
    rows = {q[0]: [float(v) for v in q[1:]] for q in re.findall(r"^\s*(\S+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s*$", txt, re.M)}
    if T.eq(key + "impact_vars", sorted(v for v in rows if v.rpartition("_")[2] in ("al", "be")), sorted(own)):
        for v in own:
            t = (b[v] + sum(b[g] for g in lags[v])) / (1 - rho)
            d = adi * b[v]
            T.close(key + "impacts", rows[v], [d, t - d, t], 0, atol=6e-5 + 1e-5 * abs(t))


def comfac(T, key, f, m, names, rho, slx):
    own = [v for v in names if v.rpartition("_")[2] in ("al", "be") and "_W" not in v]
    lag = [lag_of(v, 1) for v in own]
    if slx != 1 or any(v not in names for v in lag):
        T.true(key + "no_cfh", not hasattr(m, "cfh_test"))
        return
    b, vm = np.asarray(m.betas).ravel(), np.asarray(m.vm)
    i, j, r = [names.index(v) for v in own], [names.index(v) for v in lag], names.index("_Global_W_yy")
    if not hasattr(m, "cfh_test"):
        T.true(key + "cfh_missing", f == "gmlag", "no test")       # only printed with the impacts/diagnostics
        return
    g = b[j] + rho * b[i]
    J = np.zeros((len(i), len(b)))
    for t in range(len(i)):
        J[t, i[t]], J[t, j[t]], J[t, r] = rho, 1, b[i[t]]
    v = g @ np.linalg.solve(J @ vm @ J.T, g)
    T.close(key + "cfh", m.cfh_test[0], v, 1e-6)
    T.close(key + "cfh_p", m.cfh_test[1], stats.chi2.sf(v, len(i)), 1e-6, atol=1e-12)


def table(T, key, m, f, names, b, vm, rtol, shown):
    """rows of the output table by name; row blocks in regime order"""
    o = m.output
    on = [str(v) for v in o["var_names"]]
    if not T.eq(key + "table_names", sorted(on), sorted(names)):
        return
    bn = dict(zip(names, b.ravel()))
    T.close(key + "table_coef", o["coefficients"].to_numpy(float), [bn[v] for v in on], rtol, atol=rtol * np.abs(b).max())
    d = np.diag(vm)
    if (d <= 0).any():
        return
    sn = dict(zip(names, np.sqrt(d)))
    want = np.array([sn.get(v, np.nan) for v in on])
    have = np.array([np.nan if (x is None or isinstance(x, str)) else float(x) for x in o["std_err"]])
    q = ~np.isnan(want)
    T.close(key + "table_se", have[q], want[q], 10 * rtol)
    T.true(key + "no_se_invented", np.isnan(have[~q]).all(), have)
    reg = [v.split("_")[0] if not v.startswith("_Global") and v != "lambda" else "_Global" for v in on]
    order = [r for i, r in enumerate(reg) if i == 0 or reg[i - 1] != r]
    T.true(key + "table_blocks", len(order) == len(set(order)) and set(order) - {"_Global"} <= set(shown), order)


def linear(T, key, f, m, wd, X, E, H, opt, K, lab, rset, fx):
    y = wd.y
    n = wd.n
    rob, dk = opt.get("robust"), opt.get("sig2n_k", f != "gmlag")
    if E is None:
        r = ref.ols(y, X, dk)
        r.vm0 = r.vm
        if opt.get("regime_err_sep") and rob != "hac":
            # groupwise heteroskedasticity: weights from the per-regime variance of the first-step residuals
            s = np.zeros((n, 1))
            for g in rset:
                i = [j for j, l in enumerate(lab) if l == g]
                s[i] = 1 / np.sqrt(float((r.u[i] ** 2).sum()) / (len(i) - (X.shape[1] if dk else 0)))
            r2 = ref.ols(y * s, X * s, dk)
            b, vm = r2.b, r2.vm
        else:
            b = r.b
            vm = ref.white_ols(r, dk) if rob == "white" else ref.hac_ols(r, K) if rob == "hac" else r.vm
        Z = X
    else:
        r = ref.tsls(y, X, E, H=H, sig2n_k=dk)
        b, vm = r.b, r.vm
        Z = r.Z
        if rob == "white":
            vm = ref.white_tsls(r, dk)
        elif rob == "hac":
            vm = ref.hac_tsls(r, K)
        elif rob == "ogmm":
            d = n - r.k if dk else n
            S = (r.H * r.u).T @ (r.H * r.u) / d
            A = Z.T @ r.H @ np.linalg.inv(S)
            f2 = np.linalg.inv(A @ r.H.T @ Z)
            b, vm = f2 @ A @ r.H.T @ y, f2 * d
    cond = np.linalg.cond((H if H is not None else X).T @ (H if H is not None else X))
    tol = max(1e-7, 1e-15 * cond)
    if tol > 1e-4:
        return None
    sb = np.sqrt(np.diag(vm)).reshape(-1, 1)
    T.close(key + "betas", m.betas / sb, b / sb, 100 * tol, atol=100 * tol)
    if T.true(key + "vmshape", np.shape(m.vm) == vm.shape, (np.shape(m.vm), vm.shape)):
        T.close(key + "vm", np.asarray(m.vm) / (sb * sb.T), vm / (sb * sb.T), 1000 * tol, atol=1000 * tol)
    T.close(key + "predy", m.predy, Z @ b, 100 * tol, atol=100 * tol * np.abs(y).max())
    T.close(key + "u", m.u, y - Z @ b, 100 * tol, atol=100 * tol * np.abs(y).max())
    T.eq(key + "k", m.k, Z.shape[1])
    return np.asarray(m.betas), np.asarray(m.vm), tol


def at_max(T, key, p, f):
    """no lower than any other value; a local maximum when the likelihood has several"""
    g = np.linspace(-.99, .99, 199)
    v = np.array([f(r) for r in g])
    top = v.max()
    if ((v[1:-1] > v[:-2]) & (v[1:-1] > v[2:])).sum() > 1:
        top = v[np.abs(g - p) <= 0.0101].max()
    T.true(key + "ml_max", f(p) >= top - 1e-6, (p, f(p), top))


def mllag(T, key, m, wd, X, opt):
    y, W = wd.y, wd.W
    rho = float(np.asarray(m.rho).item())
    L, b, e, s2 = ml.lag_ll(y, X, W, rho)
    at_max(T, key, rho, lambda r: ml.lag_ll(y, X, W, r)[0])
    T.close(key + "betas", m.betas, np.vstack([b, [[rho]]]), 1e-6)
    T.close(key + "sig2", m.sig2, s2, 1e-6)
    T.close(key + "logll", m.logll, L, 1e-8)
    vmf = ml.lag_vm(y, X, W, b, rho, s2)
    vm = vmf[:-1, :-1]
    s = np.sqrt(np.diag(vm)).reshape(-1, 1)
    if opt["method"] != "ord":
        T.close(key + "vm", np.asarray(m.vm) / (s * s.T), vm / (s * s.T), 1e-5, atol=1e-5)
    p = X @ b + rho * (W @ y)
    T.close(key + "predy", m.predy, p, 1e-6)
    T.close(key + "u", m.u, y - p, 1e-6, atol=1e-5)
    k = X.shape[1] + 1
    T.eq(key + "k", m.k, k)
    T.close(key + "aic", m.aic, 2 * k - 2 * L, 1e-8)
    T.close(key + "schwarz", m.schwarz, np.log(wd.n) * k - 2 * L, 1e-8)
    return np.asarray(m.betas), np.asarray(m.vm), 1e-7


def mlerr(T, key, m, wd, Xc, sx, opt, lab):
    y, W, n = wd.y, wd.W, wd.n
    lam = float(np.asarray(m.betas)[-1, 0])
    X = sx(Xc)

    def conc(l):
        ys, Xs = gm.filt(W, l, y), sx(gm.filt(W, l, Xc))
        b = np.linalg.lstsq(Xs, ys, rcond=None)[0]
        e = ys - Xs @ b
        s2 = float((e ** 2).sum()) / n
        return -n / 2 * np.log(2 * np.pi) - n / 2 * np.log(s2) - n / 2 + ml.logdet(W, l), b, e, s2, Xs
    L, b, e, s2, Xs = conc(lam)
    at_max(T, key, lam, lambda l: conc(l)[0])
    same = np.array([[p == q for q in lab] for p in lab])
    if not (W * ~same).any():
        L0 = ml.err_ll(y, X, W, lam)[0]
        T.close(key + "plain_ll", L, L0, 1e-9)
    else:
        T.close(key + "filter_split", np.asarray(m.betas)[:-1], ml.err_ll(y, X, W, lam)[1], 1e-6)
    T.close(key + "betas", m.betas[:-1], b, 1e-6, atol=1e-6)
    u = y - X @ b
    s2f = float((gm.filt(W, lam, u) ** 2).sum()) / n      # differs from s2 only when weights link regimes (filter_split)
    T.close(key + "sig2", m.sig2, s2, 1e-6, alt=s2f)
    T.close(key + "logll", m.logll, L, 1e-8)
    vm = ml.err_vm(X, W, lam, float(np.asarray(m.sig2).item()), Xs)[0]
    s = np.sqrt(np.diag(vm)).reshape(-1, 1)
    if opt["method"] != "ord":
        T.close(key + "vm", np.asarray(m.vm) / (s * s.T), vm / (s * s.T), 1e-5, atol=1e-5)
    T.close(key + "predy", m.predy, X @ b, 1e-6)
    T.close(key + "u", m.u, u, 1e-6, atol=1e-6)
    T.close(key + "e_filtered", m.e_filtered, gm.filt(W, lam, u), 1e-6, atol=1e-5)
    k = X.shape[1]
    T.close(key + "aic", m.aic, 2 * k - 2 * L, 1e-8)
    T.close(key + "schwarz", m.schwarz, np.log(n) * k - 2 * L, 1e-8)
    return np.asarray(m.betas), np.asarray(m.vm), 1e-7


def gmm(T, key, f, m, wd, Xc, sx, Ec, se, H, opt):
    method = "het" if "_het" in f else "hom" if "_hom" in f else "kp98"
    d = gm.DataSplit(wd.y, Xc, wd.W, sx, Ec, se if Ec is not None else None, H)
    plain = gm.Data(wd.y, d.X, wd.W, d.E, H)
    A = H if H is not None else d.X
    tol = max(1e-7, 1e-15 * np.linalg.cond(A.T @ A))
    if tol > 1e-4:
        return None
    b = np.asarray(m.betas, float)
    if not T.eq(key + "nbetas", b.shape, (d.k + 1, 1)):
        return None
    bb, lam = b[:-1], float(b[-1, 0])
    mi = opt.get("max_iter", 1)
    first = method == "het" and Ec is not None and (opt.get("step1c") or mi > 1)
    if method == "kp98":
        r = gm.kp98(d)
    elif method == "het":
        r = gm.het(d, mi, step1c=opt.get("step1c", False), first=first)
    else:
        r = gm.hom(d, mi, A1=opt["A1"])
    used = gm.used_lambda(d, bb, r.lam_used)
    T.close(key + "betas", bb, d.fit(used), 50 * tol, atol=50 * tol)
    linked = np.abs(d.fs(0.5) - gm.filt(wd.W, 0.5, d.Z)).max() > 1e-9
    if linked:
        T.close(key + "filter_split", bb, plain.fit(used), 50 * tol)
    if method == "kp98":
        lam_ok(T, key + "lambda/", lam, *r.crits[0])
        T.close(key + "lambda_used", used, lam, 1e-5, atol=1e-5)
    else:
        if mi == 1:
            T.eq(key + "iteration", m.iteration, 1)
        else:
            T.true(key + "iteration", 1 <= m.iteration <= mi, m.iteration)
        lam_v = None
        clear = all(len(l_) == 1 and abs(l_[0]) < 0.9 for _, l_ in r.crits)
        if mi == 1 and not first:
            lam_ok(T, key + "lambda_first/", used, *r.crits[-2], exact=False)
        elif first:
            lam_ok(T, key + "lambda_first/", used, *r.crits[0], exact=False)
            T.close(key + "first_lambda", used, gm.het(d, mi, step1c=opt.get("step1c", False)).lam_used, 0, atol=1e-3)   # known finding
            lam_v = r.crits[-2][1][0]
        elif clear:
            T.close(key + "lambda_prev", used, r.lam_used, 0, atol=2e-2)
        if not first or clear:
            if method == "het":
                fcr, loc = gm.het_last_crit(d, bb, used, lam_v)
            else:
                fcr, loc = gm.hom_last_crit(d, bb, used, opt["A1"])
            lam_ok(T, key + "lambda/", lam, fcr, loc)
    s2 = None
    if method == "kp98":
        vm, s2 = gm.kp98_vm(d, bb, lam)
    elif method == "het":
        vm = gm.het_vm(d, bb, lam)
    else:
        vm, s2 = gm.hom_vm(d, bb, lam, opt["A1"])
    sc = np.sqrt(np.outer(np.diag(vm), np.diag(vm)))
    mv = np.asarray(m.vm, float)
    if T.true(key + "vmshape", mv.shape == vm.shape, mv.shape):
        T.close(key + "vm", mv / sc, vm / sc, 1000 * tol, atol=1000 * tol)
    if s2 is not None:
        T.close(key + "sig2", m.sig2, s2, 100 * tol)
    u = d.y - d.Z @ bb
    at = 100 * tol * np.abs(d.y).max()
    T.close(key + "u", m.u, u, 100 * tol, atol=at)
    T.close(key + "predy", m.predy, d.Z @ bb, 100 * tol, atol=at)
    T.close(key + "e_filtered", m.e_filtered, gm.filt(d.W, lam, u), 100 * tol, atol=at)
    T.eq(key + "k", m.k, d.k)
    return b, mv, 1e-7
