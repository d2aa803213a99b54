"""P21: spatial multipliers (simple / full / power), per-observation multipliers, and the impacts printed by lag models."""
import itertools, re
import numpy as np
import pandas as pd
import scipy.sparse as SP
import worlds
from p01 import masks

META = {"rule": "a state is one (weights, rho, method) multiplier computation, or one (model, weights, k, slx, mask, methods) estimation whose printed impacts are compared with the exact inverse",
        "assumptions": ["row-standardised weights without islands (the total multiplier 1/(1-rho) is defined for them)",
                        "direct impacts of lagged regressors follow the documented convention (multiplier times own coefficient)"]}


def directed(n):
    A = np.zeros((n, n))
    for i in range(n):
        A[i, (i + 1) % n] = 1.0
    return worlds.from_adj(A)


def mixed(n):
    """two directed cycles of different length and an even one: long runs of zero traces"""
    A = np.zeros((n, n))
    for i in range(n):
        A[i, (i + 1) % n] = 0.5
        A[i, (i + 3) % n] += 0.5
    return worlds.from_adj(A)


def getw(wk):
    name, _, sz = wk.partition(":")
    if name == "dir":
        return directed(int(sz))
    if name == "mix":
        return mixed(int(sz))
    return worlds.make_w(wk)


def cases(tier):
    out = []
    ws = ["rook:4x4", "queen:4x4", "knn:4x5", "ring:3x3", "ring:4x4", "dir:3", "dir:4", "dir:7", "mix:8", "mix:9", "strid:4x5"]
    if tier == "thorough":
        ws += ["rook:7x7", "queen:6x7", "knn:7x8", "dir:11", "mix:12", "strid:8x8", "ring:5x5"]
    rhos = (-0.9, -0.5, -0.1, 0.0, 0.1, 0.4, 0.8, 0.95) if tier == "quick" else tuple(np.round(np.arange(-0.99, 1.0, 0.06), 2))
    for wk in ws:
        out.append(("mult/" + wk, ("mult", wk, rhos)))
        out.append(("imult/" + wk, ("imult", wk, rhos)))
    for wk in ("rook:6x6", "knn:6x6") + (("queen:7x7", "strid:6x6") if tier == "thorough" else ()):
        for k in (1, 2, 3) + ((5,) if wk[0] == "r" else ()):
            for rho in (-0.4, 0.5):
                for mod in ("GM_Lag", "GM_Lag_e", "ML_Lag"):
                    out.append(("impacts/%s/%s/k%d/%g" % (mod, wk, k, rho), ("impacts", wk, k, rho, mod)))
    return out


def run(case, T):
    import spreg
    import spreg.sputils as S
    from libpysal import graph
    if case[0] == "mult":
        _, wk, rhos = case
        w = getw(wk); W = worlds.dense(w); n = len(W)
        for rho in rhos:
            Vi = np.linalg.inv(np.eye(n) - rho * W)
            for form in ("f", "a"):
                r = rho if form == "f" else np.array([rho])
                for meth in ("simple", "full", "power"):
                    m = S.spmultiplier(w, r, method=meth)
                    T.call(); T.state(wk, rho, form, meth)
                    ati = 1 / (1 - rho)
                    adi = 1.0 if meth == "simple" else np.trace(Vi) / n
                    tol = 1e-9 if meth != "power" else 1e-7 / (1 - abs(rho))
                    T.close(meth + "/ati", m["ati"], ati, 1e-9)
                    T.close(meth + "/ati_exact", m["ati"], Vi.sum() / n, 1e-8)
                    T.close(meth + "/adi", m["adi"], adi, 0, atol=tol)
                    T.close(meth + "/aii", m["aii"], ati - adi, 0, atol=2 * tol)
                    T.eq(meth + "/method", m["method"], meth)
                    T.eq(meth + "/warn", m["warn"], "")
            m = S.spmultiplier(w, rho, method="bogus")
            T.true("bogus/warn", "not supported" in m["warn"] and m["method"] == "simple")
        return
    if case[0] == "imult":
        _, wk, rhos = case
        w = getw(wk); W = worlds.dense(w); n = len(W)
        forms = {"W": w, "nd": W.copy(), "view": W.T.copy().T[:, :], "graph": graph.Graph.from_W(w)}
        for form, ww in forms.items():
            if form == "graph" and list(w.id_order) != sorted(w.id_order):
                continue
            for rho in rhos:
                Vi = np.linalg.inv(np.eye(n) - rho * W)
                off = Vi - np.diag(np.diag(Vi))
                d = S.i_multipliers(ww, coef=rho, model="lag")
                T.call(); T.state(wk, form, rho)
                T.close("lag/direct", d["Direct"], np.diag(Vi), 1e-9, atol=1e-12)
                T.close("lag/of", d["EofNbrs"], off.sum(1), 1e-9, atol=1e-12)
                T.close("lag/on", d["EonNbrs"], off.sum(0), 1e-9, atol=1e-12)
                T.close("lag/id", d["ID"], np.arange(n), 0)
            d = S.i_multipliers(ww, model="slx")
            T.close("slx/direct", d["Direct"], np.zeros(n), 0)
            T.close("slx/of", d["EofNbrs"], W.sum(1), 1e-9, atol=1e-12)
            T.close("slx/on", d["EonNbrs"], W.sum(0), 1e-9, atol=1e-12)
            for idf in (np.arange(n).reshape(-1, 1) + 5, pd.DataFrame({"k": np.arange(n) + 5}), pd.Series(np.arange(n) + 5, name="k")):
                d = S.i_multipliers(ww, coef=0.3, id=idf)
                T.close("id", d.iloc[:, 0], np.arange(n) + 5, 0)
                T.eq("ncol", d.shape, (n, 4))
            T.raises("bad model", lambda: S.i_multipliers(ww, model="nope"))
            K = W + np.diag(np.linspace(0.5, 1, n))
            if form in ("nd", "view"):
                T.true("input untouched/" + form, (ww == W).all())
                Kin = K.copy() if form == "nd" else np.vstack([K, K])[:n]
                d = S.i_multipliers(Kin, model="kernel")
                T.true("kernel/input untouched/" + form, (Kin == K).all())
                T.close("kernel/direct", d["Direct"], np.diag(K), 1e-12)
                T.close("kernel/of", d["EofNbrs"], W.sum(1), 1e-9, atol=1e-12)
                T.close("kernel/on", d["EonNbrs"], W.sum(0), 1e-9, atol=1e-12)
        sp = SP.csr_matrix(W * 0.7)
        base = sp.copy()
        for coef in (1.0, 2.0, 0.5):
            for model, fn in (("power", lambda v: v ** coef), ("exponential", lambda v: np.exp(-coef * v))):
                d = S.i_multipliers(sp, coef=coef, model=model)
                B = np.where(W != 0, fn(np.where(W != 0, W * 0.7, 1.0)), 0)
                T.close(model + "/of", d["EofNbrs"], B.sum(1), 1e-9, atol=1e-12)
                T.close(model + "/on", d["EonNbrs"], B.sum(0), 1e-9, atol=1e-12)
                T.call(); T.state(wk, coef, model)
                T.true(model + "/input untouched", (sp != base).nnz == 0)
        T.raises("sparse lag", lambda: S.i_multipliers(sp, coef=0.3, model="lag"))
        T.true("w untouched", (worlds.dense(w) == W).all())
        return
    _, wk, k, rho, mod = case
    e = 1 if mod == "GM_Lag_e" else 0
    wd = worlds.World(wk, k=k, e=e, m=2 * e, rho=rho, seed=31 + k)
    n, W = wd.n, wd.W
    nx = ["al", "be", "ga", "de", "ep"][:k]
    meths = [("simple",), ("full",), ("power",), ("simple", "full"), ("power", "simple"), "all", "All", "full", ["full", "power", "simple"]]
    for slx in (0, 1, 2):
        for mask in (masks(k) if slx else ["All"]):
            for im in (meths if (slx < 2 and mask == "All") else ["all"]):
                if isinstance(im, tuple):
                    im = list(im)
                kw = dict(w=wd.w, name_y="Y", name_x=list(nx), spat_impacts=im, slx_lags=slx, slx_vars=mask)
                if e:
                    kw.update(yend=wd.yend, q=wd.q, name_yend=["en"], name_q=["qa", "qb"])
                m = (spreg.ML_Lag if mod == "ML_Lag" else spreg.GM_Lag)(wd.y, wd.x, **kw)
                T.call(); T.state(case, slx, str(mask), str(im))
                r = float(np.asarray(m.rho).item())
                if abs(r) >= 1:
                    T.true("omitted", "Omitted" in m.summary)
                    continue
                names = [im] if isinstance(im, str) else im
                names = [s.lower() for s in names]
                if "all" in names:
                    names = ["simple", "full", "power"]
                adi = {"simple": 1.0, "full": np.trace(np.linalg.inv(np.eye(n) - r * W)) / n}
                adi["power"] = adi["full"]
                ati = 1 / (1 - r)
                key = "slx%d/%s/" % (slx, "all" if isinstance(mask, str) else "".join("01"[b] for b in mask))
                T.eq(key + "methods", sorted(m.sp_multipliers), sorted(names))
                b = np.asarray(m.betas).ravel()
                mk = [True] * k if isinstance(mask, str) else mask
                own, tot = b[1:k + 1].copy(), b[1:k + 1].copy()
                kk = sum(mk)
                pos = [j for j in range(k) if mk[j]]
                for L in range(slx):
                    for t, j in enumerate(pos):
                        tot[j] += b[1 + k + L * kk + t]
                blocks = re.split(r"Impacts computed using the '(\w+)' method\.\n", m.summary)[1:]
                T.eq(key + "blocks", blocks[0::2], names)
                for meth, txt in zip(blocks[0::2], blocks[1::2]):
                    d, i_, t_ = (float(np.asarray(v).item()) for v in m.sp_multipliers[meth])
                    T.close(key + meth + "/mult", [d, i_, t_], [adi[meth], ati - adi[meth], ati], 1e-6, atol=1e-6)
                    rows = re.findall(r"^\s*(\S+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s+(-?[\d.]+)\s*$", txt, re.M)[:k]
                    T.eq(key + meth + "/vars", [q[0] for q in rows], nx)
                    got = np.array([[float(v) for v in q[1:]] for q in rows])
                    bt, bd = ati * tot, adi[meth] * own
                    want = np.column_stack([bd, bt - bd, bt])
                    T.close(key + meth + "/impacts", got, want, 0, atol=6e-5 * max(1, 1e-2 * np.abs(want).max()))
