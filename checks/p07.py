"""P07: fully separated regimes models equal the plain estimator on each regime's observations and restricted weights."""
import itertools
import re
import numpy as np
import ref, worlds, zcheck, regs
from p01 import slx_names

META = {"rule": "a state is one (estimator, weights, regime layout, options) regimes estimation; every regime of it is re-estimated with the plain estimator on the subset and compared attribute by attribute",
        "assumptions": ["plain estimators are decided by P01-P06", "lagged regressors are computed with the complete weights, as announced by the package's warning"]}

OPTS = {
    "ols": [{}, {"robust": "white"}, {"sig2n_k": False}, {"spat_diag": True, "moran": True, "vm": True}],
    "tsls": [{}, {"robust": "white"}, {"sig2n_k": False}, {"spat_diag": True, "vm": True}, {"robust": "ogmm"}, {"robust": "ogmm", "sig2n_k": False}],
    "gmlag": [{"robust": None}, {"robust": "white"}, {"robust": None, "sig2n_k": True}, {"robust": None, "w_lags": 2}, {"robust": None, "lag_q": False}, {"robust": "ogmm"}],
    "error": [{}], "endog": [{}], "combo": [{}, {"w_lags": 2}, {"lag_q": False}],
    "error_het": [{}, {"step1c": True}, {"max_iter": 3}], "endog_het": [{}, {"step1c": True}, {"max_iter": 3}, {"step1c": True, "inv_method": "true_inv"}],
    "combo_het": [{}, {"step1c": True}, {"max_iter": 3, "w_lags": 2}],
    "error_hom": [{"A1": "hom_sc"}, {"A1": "hom"}, {"A1": "het", "max_iter": 3}], "endog_hom": [{"A1": "hom_sc"}, {"A1": "hom"}, {"A1": "het", "max_iter": 3}],
    "combo_hom": [{"A1": "hom_sc"}, {"A1": "hom"}, {"A1": "het", "max_iter": 3, "lag_q": False}],
    "mllag": [{"method": "full"}, {"method": "LU"}, {"method": "ord"}], "mlerr": [{"method": "full"}, {"method": "LU"}, {"method": "ord"}],
}
ATTRS = {
    "all": ["betas", "vm", "u", "predy", "n", "k"],
    "ols": ["utu", "sig2", "r2", "ar2", "logll", "aic", "schwarz"],
    "tsls": ["sig2", "pr2", "kstar"], "gmlag": ["sig2", "pr2", "pr2_e", "predy_e", "e_pred", "rho"],
    "error": ["sig2", "e_filtered", "pr2"], "endog": ["sig2", "e_filtered", "pr2"], "combo": ["sig2", "e_filtered", "pr2", "predy_e", "e_pred", "rho"],
    "error_het": ["e_filtered", "iteration"], "endog_het": ["e_filtered", "iteration"], "combo_het": ["e_filtered", "iteration", "predy_e", "e_pred", "rho"],
    "error_hom": ["e_filtered", "sig2", "iteration"], "endog_hom": ["e_filtered", "sig2", "iteration"], "combo_hom": ["e_filtered", "sig2", "iteration", "predy_e", "e_pred", "rho"],
    "mllag": ["rho", "sig2", "logll", "aic", "schwarz", "predy_e", "e_pred", "pr2"], "mlerr": ["lam", "sig2", "logll", "aic", "schwarz", "e_filtered", "pr2"],
}


DURBIN = {"gmlag": "TSLS", "combo": "GM_Endog_Error", "combo_het": "GM_Endog_Error_Het", "combo_hom": "GM_Endog_Error_Hom"}


def cases(tier):
    out = []
    ws = ["rook:6x8", "odd:6x8"] if tier == "quick" else ["rook:6x8", "odd:6x8", "knn:6x9", "strid:6x8", "rooks:6x8", "rookb:6x8"]
    ks = ["cols", "three_s", "alt"] if tier == "quick" else ["cols", "rows_s", "three_s", "three", "alt", "uneq", "flt"]
    for f in regs.FAM:
        for wk in ws:
            if wk.startswith("rookb") and f not in ("ols", "tsls"):
                continue
            for rk in ks:
                if rk == "alt" and wk.startswith("rook") and f in regs.NEEDS_W:
                    continue    # no link inside a regime: spatial model undefined
                for slx in (0, 1) + (SLXV if takes_vars(f) and rk in ("cols", "three_s") else ()):
                    if slx and f == "gmlag" and wk.startswith("rooks") and rk == "three_s":
                        continue    # regimes of 12 observations: collinear lags of x
                    out.append(("%s/%s/%s/slx%s" % (f, wk, rk, "%d_%s" % (slx[0], "".join("01"[b] for b in slx[1])) if isinstance(slx, tuple) else slx), (f, wk, rk, slx, tier)))
        for slx in (0, 1):                  # more regimes
            if f in ("ols", "tsls") or not slx:
                out.append(("%s/rook:8x10/five/slx%s" % (f, slx), (f, "rook:8x10", "five", slx, tier)))
        out.append(("const/" + f, ("const", f)))
    return out


SLXV = ((1, (True, False)), (1, (False, True)), (2, (False, True)))


def takes_vars(f):
    return not f.startswith(("endog", "combo"))


def build(f, wk, rk, seed=0, k=2):
    e = regs.FAM[f][2]
    a, b = (int(s) for s in wk.split(":")[1].split("x"))
    wd = worlds.World(wk, k=k, e=1, m=2, rho=0.35 if regs.FAM[f][3] else 0.0, lam=0.3, seed=seed, noise=0.7)
    wd.yend = 4 * wd.yend if "het" in f else wd.yend
    lab = regs.regimes(rk, a, b)
    # coefficients differ by regime
    s = sorted(set(lab))
    wd.y = wd.y + np.array([[0.7 * s.index(l)] for l in lab]) * wd.x[:, :1]
    return wd, lab


def run(case, T):
    if case[0] == "const":
        return const(case[1], T)
    f, wk, rk, slx, tier = case
    RC, PC, e, lag, sepkw = regs.FAM[f]
    for seed in ((3,) if tier == "quick" else (3, 4)):
        wd, lab = build(f, wk, rk, seed)
        es = [e] if e is not None else [0, 1]
        for opt in OPTS[f]:
            for ee in es:
                if slx and lag and (opt.get("w_lags") == 2 or slx == (2, (False, True))) and rk.startswith("three"):
                    continue    # more instruments than observations in a regime
                if ee == 0 and opt.get("lag_q") is False:
                    continue
                one(T, "s%d/e%d/%s/" % (seed, ee, ",".join("%s=%s" % kv for kv in sorted(opt.items()))), f, wd, lab, slx, opt, ee)


def one(T, key, f, wd, lab, slx, opt, ee, nx=("al", "be"), keep=None):
    RC, PC, e, lag, sepkw = regs.FAM[f]
    nx = list(nx)
    rset = sorted(set(lab))
    shown = [int(r) if isinstance(r, float) else r for r in rset]
    kw = dict(name_y="yy", name_x=list(nx), name_regimes="reg")
    if f in regs.NEEDS_W or slx or opt.get("spat_diag"):
        kw.update(w=wd.w)
    if ee:
        kw.update(yend=wd.yend, q=wd.q, name_yend=["en"], name_q=["qa", "qb"])
    smask = None
    if isinstance(slx, tuple):
        slx, smask = slx[0], list(slx[1])
        kw["slx_vars"] = list(smask)
    if slx:
        kw["slx_lags"] = slx
    if f in ("gmlag", "mllag"):
        kw["spat_impacts"] = "full"
    m = regs.cls(RC)(wd.y, wd.x, regimes=list(lab), **dict(kw, **sepkw, **opt))
    T.call(); T.state(key, f)
    xall = wd.x
    names = list(nx)
    if slx:
        xm = smask or [True] * len(nx)
        xall = np.hstack([wd.x, ref.wlags(wd.W, wd.x[:, xm], slx)])
        names = nx + slx_names(nx, xm, slx)
    if keep is not None:
        xall = xall[:, keep]
        names = [names[i] for i in keep]
    full = bool(slx and lag and f != "mllag")
    if full:
        wl, lq = opt.get("w_lags", 1), opt.get("lag_q", True)
        base = np.hstack([ref.wlags(wd.W, wd.x, slx + wl)[:, 2 * slx:]] + ([ref.wlags(wd.W, wd.q, wl)] if ee and lq else []))
        qfull = np.hstack([wd.q, base]) if ee else base
    B, V, NM, U, PY = [], [], [], np.zeros((wd.n, 1)), np.zeros((wd.n, 1))
    tight = 1e-6 if f in ("ols", "tsls", "gmlag") else 5e-5
    other = {} if full else {a: np.zeros((wd.n, 1)) for a in ("e_filtered", "predy_e", "e_pred") if a in ATTRS[f]}
    T.eq(key + "regimes", list(m.multi.keys()), shown)
    for r, sh in zip(rset, shown):
        ids = [i for i, l in enumerate(lab) if l == r]
        rk = {k2: v for k2, v in opt.items() if k2 != "robust" or v != "ogmm"}
        if f == "tsls" and "sig2n_k" not in rk:
            rk["sig2n_k"] = True
        pk = dict(rk)
        pk.pop("spat_diag", None), pk.pop("moran", None), pk.pop("vm", None)
        if f in regs.NEEDS_W:
            pk["w"] = regs.sub_w(wd.w, ids)
        if ee:
            pk.update(yend=wd.yend[ids], q=wd.q[ids])
        if f in ("gmlag", "mllag"):
            pk["spat_impacts"] = "full"
        if full:
            # Durbin models: instruments with the complete weights, lag of y with the weights of the regime
            # (GM_Combo family: with the complete weights, see known_findings.txt)
            wy = ref.wlags(wd.W, wd.y, 1) if f.startswith("combo") else np.asarray(regs.cls_lag(regs.sub_w(wd.w, ids), wd.y[ids]))
            wy_r = wy[ids] if f.startswith("combo") else wy
            ye = np.hstack([wd.yend[ids], wy_r]) if ee else wy_r
            pk.pop("w_lags", None), pk.pop("lag_q", None), pk.pop("spat_impacts", None)
            pk.update(yend=ye, q=qfull[ids])
            if f == "gmlag":
                pk.pop("w", None)
            p = regs.cls(DURBIN[f])(wd.y[ids], xall[ids], **pk)
            if f == "gmlag":
                p.rho = p.betas[-1]
        else:
            p = regs.cls(PC)(wd.y[ids], xall[ids], **pk)
        ogmm = opt.get("robust") == "ogmm"
        if ogmm:
            ogmm_ref(p, opt.get("sig2n_k", True if f == "tsls" else False))
            if "predy_e" in other:
                Ws = worlds.dense(pk["w"])
                p.rho = p.betas[-1]
                if abs(p.rho.item()) < 1:
                    p.predy_e = np.linalg.solve(np.eye(len(ids)) - p.rho.item() * Ws, np.asarray(p.z)[:, :-1] @ p.betas[:-1])
                    p.e_pred = p.y - p.predy_e
                else:               # not computed: zeros and a warning
                    p.predy_e = p.e_pred = np.zeros((len(ids), 1))
        g = m.multi[sh]
        kk = key + "reg%s/" % rset.index(r)
        if full and f.startswith("combo"):
            T.close(kk + "durbin_wy", m.multi[sh].yend[:, -1:], regs.cls_lag(regs.sub_w(wd.w, ids), wd.y[ids]), 1e-9)
        for a in ATTRS["all"] + ATTRS[f]:
            if full and a in ("predy_e", "e_pred", "pr2_e", "rho", "pr2"):
                continue
            if ogmm and a not in ("betas", "vm", "n", "k"):
                if a not in ("u", "predy"):
                    continue
            if a == "pr2_e" and not hasattr(p, a):   # spatial lag coefficient out of bounds: not reported
                T.true(kk + "no_pr2_e", not hasattr(g, a), a)
                continue
            got, want = getattr(g, a), getattr(p, a)
            if a == "vm":
                d = np.sqrt(np.diag(np.asarray(want, float)))
                T.true(kk + "vmshape", np.shape(got) == np.shape(want), (np.shape(got), np.shape(want)))
                T.close(kk + a, np.asarray(got) / np.outer(d, d), np.asarray(want) / np.outer(d, d), tight, atol=tight)
            else:
                T.close(kk + a, got, want, tight, atol=tight * max(1e-3, float(np.abs(np.asarray(want, float)).max())))
        if slx and f in ("gmlag", "mllag"):
            printed_impacts(T, kk, m, sh, nx, xm, slx, p, worlds.dense(regs.sub_w(wd.w, ids)))
        if f in ("gmlag", "mllag") and not slx and not ogmm and abs(float(np.asarray(p.rho).item())) < 0.999:
            for meth in p.sp_multipliers:
                T.close(kk + "multipliers", g.sp_multipliers[meth], p.sp_multipliers[meth], 1e-6)
        B.append(np.asarray(p.betas)); V.append(np.asarray(p.vm))
        U[ids], PY[ids] = p.u, p.predy
        for a in other:
            other[a][ids] = getattr(p, a)
        NM += ["%s_%s" % (sh, v) for v in ["CONSTANT"] + names + (["en"] if ee else []) + (["W_yy"] if lag else []) + (["lambda"] if "error" in f or "endog" in f or "combo" in f or f == "mlerr" else [])]
        T.true(kk + "title", str(sh) in g.title.split(), g.title)
    T.close(key + "betas", m.betas, np.vstack(B), tight, shape=True)
    K = sum(len(v) for v in V)
    VM = np.zeros((K, K))
    c = 0
    for v in V:
        VM[c:c + len(v), c:c + len(v)] = v
        c += len(v)
    T.close(key + "vm", m.vm, VM, 10 * tight, shape=True)
    T.close(key + "u", m.u, U, tight)
    T.close(key + "predy", m.predy, PY, tight)
    for a in other:
        T.close(key + "stacked_" + a, getattr(m, a), other[a], tight)
    o = m.output
    T.eq(key + "names", sorted(o["var_names"]), sorted(NM))
    bn = dict(zip(NM, np.vstack(B).ravel()))
    T.close(key + "table", o["coefficients"].to_numpy(float), [bn[v] for v in o["var_names"] if v in bn] if set(o["var_names"]) <= set(bn) else [], tight)
    sds = []
    for v, b in zip(V, B):
        s = np.sqrt(np.diag(v))
        sds += list(s) + [np.nan] * (len(b) - len(s))
    sn = dict(zip(NM, sds))
    want = np.array([sn.get(v, np.nan) for v in o["var_names"]])
    have = np.array([np.nan if x is None or isinstance(x, str) else float(x) for x in o["std_err"]])
    q = ~np.isnan(want)
    T.close(key + "table_se", have[q], want[q], 10 * tight)
    T.true(key + "summary", isinstance(m.summary, str) and all(("%s_CONSTANT" % s) in m.summary for s in shown), "")


def ogmm_ref(p, sig2n_k):
    """efficient GMM with White weights, from the 2SLS residuals"""
    H, Z, u, y = np.asarray(p.h), np.asarray(p.z), np.asarray(p.u), np.asarray(p.y)
    n, k = Z.shape
    d = n - k if sig2n_k else n
    S = (H * u).T @ (H * u) / d
    A = Z.T @ H @ np.linalg.inv(S)
    f2 = np.linalg.inv(A @ H.T @ Z)
    b = f2 @ A @ H.T @ y
    p.betas, p.vm = b, f2 * d
    p.predy = Z @ b
    p.u = y - p.predy


def printed_impacts(T, kk, m, sh, nx, xm, slx, p, Ws):
    """impacts printed for one regime: own and lagged coefficients of that regime"""
    r = float(np.asarray(p.betas).ravel()[-1])
    part = m.multi[sh].other_mid
    if abs(r) >= 1:
        T.true(kk + "omitted", "Omitted" in part)
        return
    if not np.allclose(Ws.sum(1), 1):
        return
    b = np.asarray(p.betas).ravel()
    adi = np.trace(np.linalg.inv(np.eye(len(Ws)) - r * Ws)) / len(Ws)
    rows = {q[0]: [float(v) for v in q[1:]] for q in re.findall(r"^\s*(\S+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s*$", part.split("IMPACTS")[1], re.M)}
    kx = sum(xm)
    T.eq(kk + "impact_vars", sorted(rows), sorted("%s_%s" % (sh, v) for v in nx))
    for j, v in enumerate(nx):
        t = b[1 + j]
        if xm[j]:
            t = t + sum(b[1 + len(nx) + L * kx + sum(xm[:j])] for L in range(slx))
        t, d = t / (1 - r), adi * b[1 + j]
        T.close(kk + "impacts", rows.get("%s_%s" % (sh, v)), [d, t - d, t], 0, atol=1e-4 + 2e-5 * abs(t))


def const(f, T):
    """a regressor that is constant within one regime is removed from all of them"""
    e = regs.FAM[f][2]
    # positions of the regressors without variation; several in the same regime or in different regimes
    for pos, where in ((0, (1,)), (1, (1,)), (2, (1,)), ((0, 2), (1, 1)), ((0, 1), (1, 1)), ((1, 2), (1, 0))):
        wd, lab = build(f, "rook:6x8", "cols", 5, k=3)
        rs = sorted(set(lab))
        pos = (pos,) if isinstance(pos, int) else pos
        wd.x = wd.x.copy()
        for p_, r_ in zip(pos, where):
            wd.x[[i for i, l in enumerate(lab) if l == rs[r_]], p_] = 2.5
        keep = [i for i in range(3) if i not in pos]
        pos = "".join("%d@%d" % q for q in zip(pos, where))
        opt = {} if f not in ("error_hom", "endog_hom", "combo_hom") else {"A1": "hom_sc"}
        if f == "gmlag":
            opt = {"robust": None}
        for ee in ([e] if e is not None else [0, 1]):
            one(T, "pos%s/e%d/" % (pos, ee), f, wd, lab, 0, opt, ee, nx=("al", "be", "ga"), keep=keep)
