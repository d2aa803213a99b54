"""P06: ML lag / error: the reported parameter maximises the exact likelihood; closed forms; Jacobian methods agree."""
import itertools
import numpy as np
import ref, worlds, zcheck
import ref_ml as ml
from p01 import masks, slx_names
import pandas as pd

META = {"rule": "a state is one (model, weights, k, slx, mask, Jacobian method, epsilon) estimation; the exact concentrated likelihood is searched on a 400-point grid refined by golden section",
        "assumptions": ["weights whose admissible interval contains (-1,1)", "spatial parameter compared within the stated tolerance epsilon (plus 1e-5)"]}


def getw(wk):
    """weights incl. symmetric, general valued row standardised (distance decay)"""
    if wk.startswith("idist"):
        from libpysal import weights
        a, b = (int(s) for s in wk.split(":")[1].split("x"))
        c = worlds._coords(a, b)
        n = len(c)
        D = np.sqrt(((c[:, None] - c[None]) ** 2).sum(2))
        A = np.where((D < 1.6) & (D > 0), 1 / np.where(D > 0, D, 1), 0)
        w = worlds.from_adj((A + A.T) / 2 * (0.05 if wk.startswith("idistr") else 1.0))       # row sums below one before the transformation
        if wk.startswith("idistr"):
            w.transform = "r"
        else:
            A = A / la_norm(A)
            w = worlds.from_adj((A + A.T) / 2)
        return w
    return worlds.make_w(wk)


def la_norm(A):
    return np.abs(np.linalg.eigvals(A)).max() * 1.02


def symmetric_similar(W):
    """D^1/2 W D^-1/2 for W = D^-1 A, A symmetric, found from detailed balance"""
    n = len(W)
    d = np.zeros(n)
    for s in range(n):
        if d[s]:
            continue
        d[s] = 1.0
        st = [s]
        while st:
            i = st.pop()
            for j in np.nonzero(W[i])[0]:
                if not d[j]:
                    d[j] = d[i] * W[i, j] / W[j, i]
                    st.append(j)
    q = np.sqrt(d)
    return q[:, None] * W / q[None]


def cases(tier):
    out = []
    ws = ["rook:6x6", "knn:6x7", "rooks:6x6", "odd:6x6", "idistr:6x6", "idist:6x6", "isl:6x7"] + (["queen:7x7", "strid:6x6", "ring:5x5", "rook:8x8", "knn:8x8"] if tier == "thorough" else [])
    for wk in ws:
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            for r in ((-0.5, 0.6) if tier == "quick" else (-0.8, -0.4, 0.0, 0.3, 0.7, 0.9)):
                for mod in ("lag", "error"):
                    out.append(("%s/%s/k%d/%g" % (mod, wk, k, r), (mod, wk, k, r, tier)))
    for mod in ("lag", "error"):
        out.append(("%s/rook:7x7/k5/0.4" % mod, (mod, "rook:7x7", 5, 0.4, tier)))
    out.append(("method", ("method",)))
    return out


def method(T):
    import spreg
    wd = worlds.World("rook:5x5", k=1, e=0, m=0)
    for cls in (spreg.ML_Lag, spreg.ML_Error):
        for bad in ("QR", "", "fulll"):
            T.raises(cls.__name__ + "/unknown method", lambda: cls(wd.y, wd.x, w=wd.w, method=bad))
            T.call(); T.state(cls.__name__, bad)


def run(case, T):
    import spreg
    if case[0] == "method":
        return method(T)
    mod, wk, k, r, tier = case
    seed = 5 * k
    wd = worlds.World("rook:" + wk.split(":")[1], k=k, e=0, m=0, rho=0.0, seed=seed)
    w = getw(wk)
    W = worlds.dense(w)
    n = len(W)
    rs = np.random.RandomState(n + k)
    eps = rs.randn(n, 1)
    A = np.linalg.inv(np.eye(n) - r * W)
    mu = wd.X @ wd.beta
    y = A @ (mu + eps) if mod == "lag" else mu + A @ eps
    x = wd.x
    nx = ["al", "be", "ga", "de", "ep"][:k]
    before = worlds.snapshot_w(w)
    for slx in (0, 1, 2):
        for mask in (masks(k) if slx else ["All"]):
            X = np.hstack([wd.X[:, :1], ref.slx(W, x, slx, mask)])
            if np.linalg.cond(X.T @ X) > 1e10:
                continue
            mk = [True] * k if isinstance(mask, str) else mask
            key0 = "slx%d%s/" % (slx, "" if isinstance(mask, str) else "".join("01"[i] for i in mask))
            names = ["CONSTANT"] + nx + slx_names(nx, mk, slx) + (["W_Y"] if mod == "lag" else ["lambda"])
            f = (lambda p: ml.lag_ll(y, X, W, p)[0]) if mod == "lag" else (lambda p: ml.err_ll(y, X, W, p)[0])
            best = ml.grid_max(f)
            if any(abs(t[1]) > 0.97 for t in best):
                continue  # optimum next to the singularity: the series for predy_e and vm are ill conditioned there
            for meth in ("full", "LU", "ord", "FULL"):
                if meth == "FULL" and slx:
                    continue
                for epsilon in ((1e-7, 1e-4) if (slx == 0) else (1e-7,)):
                    key = key0 + meth + ("" if epsilon == 1e-7 else "/eps") + "/"
                    cls = spreg.ML_Lag if mod == "lag" else spreg.ML_Error
                    kw = dict(spat_impacts=None) if mod == "lag" else {}
                    if epsilon != 1e-7:
                        kw["epsilon"] = epsilon
                    m = cls(y, x, w=w, slx_lags=slx, slx_vars=mask, method=meth, name_y="Y", name_x=list(nx), **kw)
                    T.call(); T.state(case, slx, str(mask), meth, epsilon)
                    p = float(np.asarray(m.rho if mod == "lag" else m.lam).item())
                    T.true(key + "admissible", abs(p) < 1, p)
                    loc = min(best, key=lambda t: abs(t[1] - p))
                    tolp = epsilon * 3 + 2e-5
                    T.true(key + "maximum", abs(p - loc[1]) <= tolp or loc[0] - f(p) <= 1e-9 * abs(loc[0]), "%r; maxima %r" % (p, best))
                    if len(best) == 1 and epsilon <= 1e-6:
                        T.true(key + "global", best[0][0] - f(p) <= 1e-6 * (1 + abs(best[0][0])), (p, best))
                    # closed forms at the reported parameter
                    if mod == "lag":
                        L, b, e, s2 = ml.lag_ll(y, X, W, p)
                        v1 = ml.lag_vm(y, X, W, b, p, s2)
                        vm = v1[:-1, :-1]
                        u = e
                        predy = y - e
                    else:
                        L, b, e, s2, Xs = ml.err_ll(y, X, W, p)
                        vm, v1 = ml.err_vm(X, W, p, s2, Xs)
                        u = y - X @ b
                        predy = X @ b
                    cn = max(1e-8, 1e-15 * np.linalg.cond(X.T @ X))
                    bb = np.vstack([b, [[p]]])
                    T.close(key + "logll", m.logll, L, 1e-9)
                    T.close(key + "logll_at_reported", ml.full_ll(mod, y, X, W, np.asarray(m.betas)[:-1], p, float(np.asarray(m.sig2).item())), L, 1e-9)
                    kk = X.shape[1] + (1 if mod == "lag" else 0)
                    T.close(key + "aic", m.aic, -2 * L + 2 * kk, 1e-9)
                    T.close(key + "schwarz", m.schwarz, -2 * L + kk * np.log(n), 1e-9)
                    T.close(key + "sig2", m.sig2, s2, 100 * cn)
                    T.close(key + "u", m.u, u, 100 * cn)
                    T.close(key + "predy", m.predy, predy, 100 * cn)
                    T.close(key + "pr2", m.pr2, np.corrcoef(y.ravel(), predy.ravel())[0, 1] ** 2, 100 * cn)
                    if mod == "lag":
                        pe = np.linalg.solve(np.eye(n) - p * W, X @ b)
                        T.close(key + "predy_e", m.predy_e, pe, 0, atol=20 * epsilon / (1 - abs(p)) * max(1, np.abs(pe).max() * 0.1))
                        T.close(key + "e_pred", m.e_pred, y - np.asarray(m.predy_e), 1e-9, atol=1e-9)
                        T.close(key + "pr2_e", m.pr2_e, np.corrcoef(y.ravel(), pe.ravel())[0, 1] ** 2, 0, atol=1e-3 if epsilon > 1e-6 else 1e-5)
                    else:
                        T.close(key + "e_filtered", m.e_filtered, e, 100 * cn, atol=1e-8)
                    T.close(key + "betas", m.betas, bb, 100 * cn)
                    if meth == "ord":
                        continue_vm = not (wk.split(":")[0] in ("rook", "idistr", "queen", "strid", "ring", "isl"))
                    else:
                        continue_vm = True
                    sc = np.sqrt(np.outer(np.diag(vm), np.diag(vm)))
                    vkey = key if continue_vm else key + "symmetrized_"
                    tv = 1e-5 if epsilon == 1e-7 else 1e-2
                    T.close(vkey + "vm", np.asarray(m.vm) / sc, vm / sc, tv, atol=tv)
                    if not continue_vm:
                        # the recorded finding is exactly this value; anything else is a different violation
                        Ws = symmetric_similar(W)
                        if mod == "lag":
                            vs = ml.lag_vm(y, X, Ws, b, p, s2, mean_W=W)[:-1, :-1]
                        else:
                            vs = ml.err_vm(X, Ws, p, s2, Xs)[0]
                        T.close(key + "vm_ord", np.asarray(m.vm) / sc, vs / sc, tv, atol=tv, alt=vm / sc)
                    if continue_vm:
                        zcheck.table(T, key, m, bb, np.asarray(m.vm, float), names, rtol=1e-9)
                        d1 = np.sqrt(np.outer(np.diag(v1), np.diag(v1)))
                        T.close(key + "vm1", np.asarray(m.vm1) / d1, v1 / d1, tv, atol=tv)
                    else:
                        T.eq(key + "rows", list(m.output["var_names"]), names)
    T.true("weights untouched", worlds.snapshot_w(w) == before)
