"""P10: regimes results depend on the partition only: label alphabets, label order, observation order."""
import itertools
import numpy as np
import pandas as pd
import ref, worlds, regs
import p07, p08

META = {"rule": "a state is one (estimator, partition, label alphabet or observation order, options) estimation compared with the same partition under canonical labels; for OLS, 2SLS every partition of n observations is enumerated",
        "assumptions": ["tolerance 1e-5 standard errors for estimators with a numerically optimised spatial parameter (summation order changes rounding)"]}

ALPH = {     # canonical regime index -> label
    "swap": [1, 0, 2], "ints": [7, -2, 4], "big": [100, 20, 3], "str": ["north", "a b", "West"], "strnum": ["10", "9", "1"],
    "under": ["x_y", "x", "_z"], "flt": [2.0, 1.0, 3.0], "half": [0.5, 1.7, 2.2], "close": [0.25, 0.75, 0.5], "negf": [-1.5, 0.0, 2.5],
    "npint": [np.int64(3), np.int64(1), np.int64(2)], "npflt": [np.float64(1.5), np.float64(0.25), np.float64(-3.75)], "bool": [True, False, 2],
}


def cases(tier):
    out = []
    for f in regs.FAM:
        for kind in ("joint", "sep", "part"):
            for R in (2, 3):
                for slx in (0, 1) if tier == "thorough" and kind != "part" else (0,):
                    out.append(("labels/%s/%s/R%d/slx%d" % (f, kind, R, slx), ("labels", f, kind, R, slx, tier)))
                    out.append(("perm/%s/%s/R%d/slx%d" % (f, kind, R, slx), ("perm", f, kind, R, slx, tier)))
        extra = [("joint", 1), ("sep", 1)] + ([("yend", 0), ("yendsep", 0)] if regs.FAM[f][2] is None else []) + [("knn", 0), ("knnsep", 0)]
        extra += [("lagpart", 0), ("yendlagpart", 0)] if f == "gmlag" else []
        for kind, slx in extra:
            if (kind.startswith("knn") and f not in regs.NEEDS_W) or (tier == "thorough" and slx):
                continue
            for R in (2, 3):
                for m in ("labels", "perm"):
                    out.append(("%s/%s/%s/R%d/slx%d" % (m, f, kind, R, slx), (m, f, kind, R, slx, tier)))
    n = 9 if tier == "quick" else 11
    for f in ("ols", "tsls"):
        for ch in range(8):
            out.append(("all2/%s/%d" % (f, ch), ("all2", f, n, ch)))
    if tier == "thorough":
        for ch in range(9):
            out.append(("all3/ols/%d" % ch, ("all3", "ols", 9, ch)))
    return out


def opts(f, kind):
    """keyword sets"""
    sep = dict(regs.FAM[f][4])
    if kind.endswith("lagpart"):                                         # own lag of the response in each regime, some coefficients common
        ye = kind.startswith("yend")
        return dict(sep, cols2regi=[True, False] + [True] * ye, constant_regi="many" if ye else "one", spat_impacts=None)
    if kind.endswith("sep"):
        return sep
    kw = {k: False for k in sep}
    if f in ("ols", "tsls", "gmlag"):
        kw["regime_err_sep"] = False
    if kind == "part":
        kw["cols2regi"] = [False, True] + [False] * (1 if regs.FAM[f][2] else 0)      # Chow rows of endogenous columns next to global ones: P09
        kw["constant_regi"] = "one"
    if f in ("gmlag", "mllag"):
        kw["spat_impacts"] = "simple"
    return kw


def world(f, R, kind="joint"):
    wd, _ = p08.build(f, "knn:6x8" if kind.startswith("knn") else "rook:6x8", "cols", 5, k=2, e=1)
    lab = [0 if (i % 8) < (4 if R == 2 else 3) else (1 if (i % 8) < 6 or R == 2 else 2) for i in range(wd.n)]
    if R == 3:
        lab = [0 if (i // 8) < 2 else (1 if (i // 8) < 4 else 2) for i in range(wd.n)]
    wd.y = wd.y + np.array([[0.7 * l] for l in lab]) * wd.x[:, :1]
    return wd, lab


def est(f, wd, y, x, yend, q, w, lab, kw, slx, iv=False):
    k2 = dict(kw, name_y="yy", name_x=["al", "be"], name_regimes="reg")
    if "cols2regi" in k2:
        k2["cols2regi"] = list(k2["cols2regi"])
        if slx:
            k2["cols2regi"] = k2["cols2regi"][:2] * 2 + k2["cols2regi"][2:]
    if f in regs.NEEDS_W or slx:
        k2["w"] = w
    if slx:
        k2["slx_lags"] = slx
    if regs.FAM[f][2] or iv:
        k2.update(yend=yend, q=q, name_yend=["en"], name_q=["qa", "qb"])
    return regs.cls(regs.FAM[f][0])(y, x, regimes=lab, **k2)


flat = lambda L: [x for v in L for x in (flat(v) if isinstance(v, list) else [v])]


def names_of(f, m):
    return flat(m.name_x) if f in ("ols", "mlerr", "error", "error_het", "error_hom", "mllag") else flat(m.name_z)


SCAL = ["sig2", "rho", "lam", "logll", "aic", "pr2", "pr2_e", "r2", "k", "n", "kr", "kf", "nr", "utu"]


def compare(T, key, f, a, b, ren, tol, perm=None, own_lag=False):
    """b = a with labels renamed by ren and rows reordered by perm"""
    na, nb = names_of(f, a), names_of(f, b)

    def rn(v):
        for s, t in ren:
            if v.startswith(s + "_"):
                return t + v[len(s):]
        return v
    na2 = [rn(v) for v in na]
    if not T.eq(key + "names", sorted(nb), sorted(na2)):
        return
    ia, ib = [na2.index(v) for v in nb], None
    ba, bb = np.asarray(a.betas, float).ravel(), np.asarray(b.betas, float).ravel()
    va, vb = np.asarray(a.vm, float), np.asarray(b.vm, float)
    T.eq(key + "vmshape", vb.shape, va.shape)
    if len(va) == len(ba):
        iv, nv = ia, nb
    else:
        keep = [v for v in na2 if not v.endswith("lambda")]
        nv = [v for v in nb if not v.endswith("lambda")]
        iv = [keep.index(v) for v in nv]
    sd = np.sqrt(np.abs(np.diag(va)))
    T.close(key + "betas", bb, ba[ia], tol, atol=tol * max(1, sd.max()))
    T.close(key + "vm", vb / np.outer(sd, sd)[np.ix_(iv, iv)], (va / np.outer(sd, sd))[np.ix_(iv, iv)], 10 * tol, atol=10 * tol)
    p = list(range(a.n)) if perm is None else perm
    at = tol * max(1.0, np.abs(np.asarray(a.predy)).max())
    for at_ in ("u", "predy", "predy_e", "e_pred", "e_filtered"):
        if hasattr(a, at_) != hasattr(b, at_):
            T.fail(key + at_ + "/presence")
        elif hasattr(a, at_) and np.size(getattr(a, at_)) == a.n:
            T.close(key + at_, np.asarray(getattr(b, at_)).ravel(), np.asarray(getattr(a, at_)).ravel()[p], 10 * tol, atol=10 * at)
    for s in SCAL:
        if own_lag and s == "rho":                      # one of several: which one is not part of this property
            continue
        if hasattr(a, s) != hasattr(b, s):
            T.fail(key + s + "/presence")
        elif hasattr(a, s) and getattr(a, s) is not None and np.size(getattr(a, s)) == 1:
            T.close(key + s, getattr(b, s), getattr(a, s), 10 * tol, atol=10 * tol)
    if not own_lag:                                      # Chow rows of endogenous columns next to global ones: P09
      T.close(key + "chow", b.chow.regi[:, 0], a.chow.regi[:, 0], 100 * tol, atol=100 * tol)
      T.close(key + "chow_joint", b.chow.joint[0], a.chow.joint[0], 100 * tol)
    oa = {rn(str(v)): c for v, c in zip(a.output["var_names"], a.output["coefficients"])}
    ob = {str(v): c for v, c in zip(b.output["var_names"], b.output["coefficients"])}
    if T.eq(key + "table_names", sorted(ob), sorted(oa)):
        T.close(key + "table", [float(ob[v]) for v in sorted(ob)], [float(oa[v]) for v in sorted(ob)], tol, atol=tol * max(1, sd.max()))


def rename(labels):
    """how each label appears: whole floats are written as integers when every label is whole"""
    if any(isinstance(l, float) for l in labels) and all(float(l) == int(l) for l in labels):
        return [str(int(l)) for l in labels]
    return [str(l) for l in labels]


def run(case, T):
    if case[0] in ("all2", "all3"):
        return everypart(case, T)
    mode, f, kind, R, slx, tier = case
    wd, can = world(f, R, kind)
    kw = opts(f, kind)
    iv = kind.startswith("yend")
    numeric = f not in ("ols", "tsls", "gmlag")
    tol = 1e-5 if numeric else 1e-8
    if mode == "labels":
        a = est(f, wd, wd.y, wd.x, wd.yend, wd.q, wd.w, list(can), kw, slx, iv)
        forms = ("list",) if tier == "quick" else ("list", "array", "series")
        for al, L in ALPH.items():
            L = L[:R]
            if al == "bool" and R == 3:
                continue
            lab = [L[i] for i in can]
            rl = rename(L)
            for form in forms:
                v = lab if form == "list" else np.array(lab) if form == "array" else pd.Series(lab)
                b = est(f, wd, wd.y, wd.x, wd.yend, wd.q, wd.w, v, kw, slx, iv)
                T.call(); T.state(case, al, form)
                compare(T, "%s/%s/" % (al, form), f, a, b, list(zip("012", rl)), tol, own_lag=kind.endswith("lagpart"))
                # blocks of coefficients follow the sorted label order
                try:
                    order = [rl[L.index(s)] for s in sorted(L)]
                except TypeError:
                    continue
                nm = [v for v in names_of(f, b) if not v.startswith("_Global") and v != "lambda"]
                T.eq(al + "/block_order", list(dict.fromkeys(pref(v, rl) for v in nm)), order)
        return
    # observation order
    base = est(f, wd, wd.y, wd.x, wd.yend, wd.q, wd.w, list(can), kw, slx, iv)
    n = wd.n
    perms = {"reverse": list(range(n))[::-1], "transpose": [r * 8 + c for c in range(8) for r in range(6)], "shift": [(i + 11) % n for i in range(n)], "stride": [(i * 7) % n for i in range(n)]}
    if tier == "quick":
        perms = {p: perms[p] for p in ("transpose", "stride")}
    for pn, p in perms.items():
        for ids in ("same", "new"):
            A = worlds.dense(wd.w)[np.ix_(p, p)]
            w2 = worlds.from_adj(A, [wd.w.id_order[i] for i in p] if ids == "same" else ["u%d" % i for i in range(n)])
            w2.transform = wd.w.transform
            b = est(f, wd, wd.y[p], wd.x[p], wd.yend[p], wd.q[p], w2, [can[i] for i in p], kw, slx, iv)
            T.call(); T.state(case, pn, ids)
            compare(T, "%s/%s/" % (pn, ids), f, base, b, [], tol, p, kind.endswith("lagpart"))


def pref(v, rl):
    c = [r for r in rl if v.startswith(r + "_")]
    return max(c, key=len) if c else v


def everypart(case, T):
    mode, f, n, ch = case
    g = np.random.default_rng(n)
    R = 2 if mode == "all2" else 3
    x = np.round(g.normal(size=(n, 1)), 2)
    e = np.round(g.normal(size=(n, 1)), 2)
    q = np.round(g.normal(size=(n, 1)), 2)
    yend = q + 0.5 * e + 0.1 * x
    y = 1 + x + e + (yend if f == "tsls" else 0)
    k = 2 + (f == "tsls")
    import spreg
    for i, lab in enumerate(itertools.product(range(R), repeat=n)):
        if i % (8 if R == 2 else 9) != ch or min(lab.count(r) for r in range(R)) < k + 1:
            continue
        lab = list(lab)
        for kind in ("joint", "sep"):
            for al in ("canon", "str", "half"):
                L = list(range(R)) if al == "canon" else ALPH[al][:R]
                v = [L[j] for j in lab]
                kw = dict(name_y="y", name_x=["al"], name_regimes="r", regime_err_sep=(kind == "sep"), nonspat_diag=False)
                if f == "ols":
                    m = spreg.OLS_Regimes(y, x, v, **kw)
                else:
                    kw.pop("nonspat_diag")
                    m = spreg.TSLS_Regimes(y, x, yend, q, v, name_yend=["en"], name_q=["qa"], **kw)
                T.call(); T.state(f, n, tuple(lab), kind, al)
                key = "%s/%s/" % (kind, al)
                srt = sorted(range(R), key=lambda j: L[j])
                got = dict(zip(names_of(f, m), np.asarray(m.betas).ravel()))
                want = {}
                for j in srt:
                    idx = [t for t in range(n) if lab[t] == j]
                    X = np.hstack([np.ones((len(idx), 1)), x[idx]])
                    if f == "ols":
                        b = np.linalg.lstsq(X, y[idx], rcond=None)[0].ravel()
                        cn = np.linalg.cond(X)
                    else:
                        H = np.hstack([X, q[idx]])
                        Z = np.hstack([X, yend[idx]])
                        cn = np.linalg.cond(H.T @ Z) * np.linalg.cond(H.T @ H)
                        b = np.linalg.solve(H.T @ Z, H.T @ y[idx]).ravel()
                    for s, t in zip(["CONSTANT", "al", "en"], b):
                        want["%s_%s" % (L[j], s)] = t
                    if cn > 1e6:
                        break
                if cn > 1e6:
                    continue
                if T.eq(key + "names", sorted(got), sorted(want)):
                    T.close(key + "betas", [got[s] for s in sorted(got)], [want[s] for s in sorted(got)], 1e-7, atol=1e-7)
