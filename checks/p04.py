"""P04: GM_Lag = 2SLS with exactly the documented instruments; names denote columns; reduced form."""
import itertools
import numpy as np
import pandas as pd
import ref, worlds, zcheck
from p01 import masks, slx_names
from p03 import ak

META = {"rule": "a state is one (weights, k, endogenous, instruments, w_lags, slx_lags, mask, lag_q, variance, input form) combination executed on GM_Lag",
        "assumptions": ["tolerance scales with the condition number of the instrument cross-product (the definition is exact, the arithmetic is float64)"]}


def cases(tier):
    out = []
    ws = ["rook:7x7", "knn:7x7", "odd:6x7"] + (["queen:8x8", "strid:8x8", "isl:7x8", "rooks:8x8"] if tier == "thorough" else ["strid:6x8"])
    for wk in ws:
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for e, m in ((0, 0), (1, 1), (1, 2), (2, 2)) + (((2, 3), (1, 3)) if tier == "thorough" else ((1, 3),) if k < 3 and wk[0] in "rk" else ()):
                out.append(("gmlag/%s/k%de%dm%d" % (wk, k, e, m), (wk, k, e, m, tier)))
    for k, e, m in ((5, 0, 0), (4, 3, 4)):
        out.append(("gmlag/rook:8x8/k%de%dm%d" % (k, e, m), ("rook:8x8", k, e, m, tier)))
    out.append(("bound", ("bound",)))
    return out


def bound(T):
    """|rho| >= 1: reduced form not computed, warning or exception"""
    import spreg
    seen = 0
    for seed in range(12):
        wd = worlds.World("rook:5x5", k=1, e=0, m=0, seed=seed, rho=0.0)
        y = wd.y + 4 * np.arange(25).reshape(-1, 1)
        m = spreg.GM_Lag(y, wd.x, w=wd.w, spat_diag=False)
        T.call(); T.state("bound", seed)
        rho = np.asarray(m.rho).item()
        if abs(rho) < 1:
            continue
        seen += 1
        T.true("warned", "outside the boundary" in getattr(m, "warning", ""), getattr(m, "warning", None))
        T.close("predy_e0", m.predy_e, np.zeros(25))
        T.raises("hard_bound", lambda: spreg.GM_Lag(y, wd.x, w=wd.w, hard_bound=True))
    T.true("covered", seen > 0)
    seen, inside = set(), set()
    lab = [0] * 15 + [1] * 10                    # regimes: one spatial parameter, one per regime, and one per regime next to a common coefficient
    half = np.array(lab).reshape(-1, 1) * 1.0
    forms = {"joint": dict(), "sep": dict(regime_err_sep=True, regime_lag_sep=True), "part": dict(regime_err_sep=True, regime_lag_sep=True, cols2regi=[False])}
    for seed in range(12):
        wd = worlds.World("rook:5x5", k=1, e=0, m=0, seed=seed, rho=0.0)
        t = np.arange(25.0).reshape(-1, 1)
        for tag, y in (("none", wd.y), ("all", wd.y + 4 * t), ("first", wd.y + 4 * t * (1 - half)), ("second", wd.y + 4 * t * half)):
            for form, kw in forms.items():
                f = lambda **o: spreg.GM_Lag_Regimes(y, wd.x, lab, w=wd.w, spat_diag=False, spat_impacts=None, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}, **o)
                m = f()
                T.call(); T.state("bound", form, tag, seed)
                key = "%s/%s/" % (form, tag)
                if form == "part":
                    rhos = [float(b) for b, z in zip(m.betas[:, 0], m.name_z) if z.endswith("W_dep_var")]
                    T.true(key + "two", len(rhos) == 2, m.name_z)
                    parts = [(m, any(abs(r) >= 1 for r in rhos))]
                elif form == "sep":
                    parts = [(p, abs(np.asarray(p.rho).item()) >= 1) for p in m.multi.values()]
                else:
                    parts = [(m, abs(np.asarray(m.rho).item()) >= 1)]
                for i, (p, o) in enumerate(parts):
                    T.true(key + "warned%d" % i, o == ("outside the boundary" in (getattr(p, "warning", "") or "")), (o, getattr(p, "warning", None)))
                if any(o for _, o in parts):
                    seen.add(form)
                    T.raises(key + "hard_bound", lambda: f(hard_bound=True))
                else:
                    inside.add(form)
                    T.close(key + "free", f(hard_bound=True).betas, m.betas, rtol=0, atol=0)
    T.true("regimes_covered", seen == inside == set(forms), (seen, inside))


def run(case, T):
    import spreg
    if case[0] == "bound":
        return bound(T)
    wk, k, e, m, tier = case
    wd = worlds.World(wk, k=k, e=e, m=m, rho=0.35, seed=2 * k + e)
    W = wd.W
    nx, ne, nq = ["al", "be", "ga", "de", "ep"][:k], ["en1", "en2", "en3"][:e], ["qa", "qb", "qc", "qd", "qe"][:m]
    E, Q = (wd.yend, wd.q) if e else (None, None)
    base = {"CONSTANT": np.ones((wd.n, 1)), "Y": wd.y}
    for n_, a in ((nx, wd.x), (ne, wd.yend), (nq, wd.q)):
        for j, s in enumerate(n_):
            base[s] = a[:, j]
    for w_lags, slx in itertools.product((1, 2, 3, 4), (0, 1, 2, 3)):
        if w_lags + slx > (3 + (k == 1) + (k < 3) if tier == "quick" else 5):
            continue
        for mask in (masks(k) if slx else ["All"]):
            for lag_q in ((True, False) if e else (True,)):
                for s2, form in itertools.product((False, True), ("np", "pd")):
                    if (s2 or form == "pd") and not (w_lags == 1 and mask == "All"):
                        continue
                    Xr, Er, inst = ref.gm_lag_parts(wd.y, wd.X, W, E, Q, w_lags, lag_q, slx, mask)
                    H = np.hstack([Xr, inst])
                    if H.shape[1] > wd.n - 5 or np.linalg.matrix_rank(H / np.abs(H).max(0)) < H.shape[1]:
                        continue
                    y, x, en, q = wd.y, wd.x, E, Q
                    kw = dict(name_y="Y", name_x=list(nx))
                    if e:
                        kw.update(name_yend=list(ne), name_q=list(nq))
                    if form == "pd":
                        kw = {}
                        y, x = pd.Series(y.ravel(), name="Y"), pd.DataFrame(x, columns=nx)
                        if e:
                            en, q = pd.DataFrame(en, columns=ne), pd.DataFrame(q, columns=nq)
                    r = ref.tsls(wd.y, Xr, Er, H=H, sig2n_k=s2)
                    mod = spreg.GM_Lag(y, x, yend=en, q=q, w=wd.w, w_lags=w_lags, slx_lags=slx, slx_vars=mask, lag_q=lag_q, sig2n_k=s2, spat_impacts=None, **kw)
                    T.call(); T.state(case, w_lags, slx, str(mask), lag_q, s2, form)
                    key = "wl%d/slx%d/%s/lq%d/%s%s/" % (w_lags, slx, "all" if mask == "All" else "".join("01"[b] for b in mask), lag_q, form, "" if not s2 else "/s2")
                    tol = max(1e-7, 1e-15 * np.linalg.cond(H.T @ H))
                    mk = [True] * k if mask == "All" else mask
                    names = ["CONSTANT"] + nx + slx_names(nx, mk, slx) + ne + ["W_Y"]
                    # the instrument space, column by column (order immaterial)
                    Hm = np.asarray(mod.h)
                    if T.true(key + "n_instruments", Hm.shape == H.shape, "%s want %s" % (Hm.shape, H.shape)):
                        srt = lambda A: A[:, np.lexsort(np.round(A[:3], 6))]
                        T.close(key + "instruments", srt(Hm), srt(H), 1e-9)
                    zcheck.names_denote(T, key + "name_h/", list(mod.name_h), Hm, base, W)
                    zcheck.names_denote(T, key + "name_z/", list(mod.name_z), np.asarray(mod.z), base, W)
                    if tol > 1e-3 or not np.isfinite(r.b).all() or abs(r.b[-1, 0]) >= 1:
                        continue
                    zcheck.inference(T, key, mod, r.b, r.vm, names, rtol=tol)
                    T.close(key + "rho", mod.rho, r.b[-1], tol)
                    T.close(key + "u", mod.u, r.u, tol)
                    T.close(key + "predy", mod.predy, r.predy, tol)
                    rho = r.b[-1, 0]
                    pe = np.linalg.solve(np.eye(wd.n) - rho * W, r.predy - rho * (W @ wd.y))
                    T.close(key + "predy_e", mod.predy_e, pe, 10 * tol, atol=1e-6)
                    T.close(key + "e_pred", mod.e_pred, wd.y - pe, 10 * tol, atol=1e-6)
                    T.close(key + "pr2", mod.pr2, np.corrcoef(wd.y.ravel(), r.predy.ravel())[0, 1] ** 2, tol)
                    T.close(key + "pr2_e", mod.pr2_e, np.corrcoef(wd.y.ravel(), pe.ravel())[0, 1] ** 2, tol, atol=1e-6)
                    ak(T, key, mod.ak_test, r, W, tol=10 * tol)
