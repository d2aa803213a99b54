"""P22: dense/sparse helpers agree; power expansion = true inverse."""
import itertools
import numpy as np
import scipy.sparse as SP
import worlds

META = {"rule": "a state is one (helper, operand pair, storage formats) or (weights, parameter, data shape, side, method) combination",
        "assumptions": ["power expansion is compared at 1e-7 (its own stopping threshold is 1e-10 per term)"]}
FM = {"nd": np.asarray, "csr": SP.csr_matrix, "csc": SP.csc_matrix}


def mats():
    rs = np.random.RandomState(5)
    out = {}
    for a, b in itertools.product((1, 2, 4), (1, 2, 3)):
        out["i%dx%d" % (a, b)] = np.round(3 * rs.randn(a, b))
        out["f%dx%d" % (a, b)] = rs.randn(a, b)
        out["n%dx%d" % (a, b)] = np.round(3 * rs.randn(a, b)).astype(int)
        z = rs.randn(a, b); z[0] = 0; z[:, -1] = 0
        out["z%dx%d" % (a, b)] = z
    return out


def cases(tier):
    out = [("helpers", ("helpers",)), ("square", ("square",))]
    ws = ["rook:4x4", "knn:4x4", "odd:4x4", "isl:4x4", "ring:3x3", "strid:4x5", "rooks:4x5", "star"]
    if tier == "thorough":
        ws += ["queen:6x6", "knn:6x7", "isl:6x7", "ring:5x5", "knn:8x9", "odd:7x7"]
    for wk in ws:
        for rho in ((-0.99, -0.95, -0.6, -0.2, 0.0, 0.3, 0.7, 0.95, 0.99, 0.995) if tier == "quick" else tuple(np.round(np.arange(-0.98, 0.99, 0.07), 2))):
            out.append(("inv/%s/%g" % (wk, rho), ("inv", wk, float(rho))))
        out.append(("lags/" + wk, ("lags", wk)))
        if wk == "rook:4x4":
            for big in ("rook:13x13", "knn:14x15") + (("queen:21x20",) if tier == "thorough" else ()):
                for rho in (-0.8, 0.4, 0.9):
                    out.append(("inv/%s/%g" % (big, rho), ("inv", big, rho)))
    out.append(("diverge", ("diverge",)))
    return out


def getw(wk):
    if wk == "star":       # strongly non-normal: everybody looks at one unit
        n = 16
        A = np.zeros((n, n)); A[1:, 0] = 1.0; A[0, 1] = 1.0
        return worlds.from_adj(A)
    return worlds.make_w(wk)


def dn(a):
    return a.toarray() if SP.issparse(a) else np.asarray(a)


def run(case, T):
    import spreg.sputils as S
    import spreg.utils as U
    kind = case[0]
    if kind == "helpers":
        M = mats()
        for (na, a), (nb, b) in itertools.product(M.items(), M.items()):
            for fa, fb, ao in itertools.product(FM, FM, (True, False)):
                A, B = FM[fa](a), FM[fb](b)
                nd = fa == "nd" and fb == "nd"
                if a.shape[1] == b.shape[0]:
                    r = S.spdot(A, B, array_out=ao)
                    T.call(); T.state("dot", na, nb, fa, fb, ao)
                    T.close("spdot/%s-%s" % (fa, fb), dn(r), a @ b, 1e-12, atol=1e-12, shape=True)
                    if ao:
                        T.true("spdot/array_out", isinstance(r, np.ndarray), type(r))
                if a.shape == b.shape and (nd or (fa != "nd" and fb != "nd")):
                    r = S.spmultiply(A, B, array_out=ao)
                    T.call(); T.state("mul", na, nb, fa, fb, ao)
                    T.close("spmultiply/%s-%s" % (fa, fb), dn(r), a * b, 1e-12, atol=1e-12, shape=True)
                    if ao:
                        T.true("spmultiply/array_out", isinstance(r, np.ndarray), type(r))
                if a.shape[0] == b.shape[0] and (nd or "csr" in (fa, fb)):
                    r = S.sphstack(A, B, array_out=ao)
                    T.call(); T.state("hst", na, nb, fa, fb, ao)
                    T.close("sphstack/%s-%s" % (fa, fb), dn(r), np.hstack([a, b]), 1e-12, atol=1e-12, shape=True)
                    if ao:
                        T.true("sphstack/array_out", isinstance(r, np.ndarray), type(r))
                if b.shape == (a.shape[0], 1) and fb == "nd" and fa != "csc":
                    for bb, bn in ((B, "2d"),) + (((B.ravel(), "1d"),) if fa == "csr" else ()):
                        r = S.spbroadcast(A, bb, array_out=ao)
                        T.call(); T.state("bc", na, nb, fa, bn, ao)
                        T.close("spbroadcast/%s-%s" % (fa, bn), dn(r), a * b, 1e-12, atol=1e-12, shape=True)
            T.close("operands", dn(A), a, 0)
        for na, a in M.items():
            for fa in FM:
                A = FM[fa](a)
                T.close("spmin", S.spmin(A), a.min(), 0); T.close("spmax", S.spmax(A), a.max(), 0)
                T.true("spisfinite", bool(S.spisfinite(A)))
                for bad in (np.nan, np.inf, -np.inf):
                    for i in range(a.shape[0]):
                        for j in range(a.shape[1]):
                            c = a.astype(float); c[i, j] = bad
                            T.true("spisfinite/bad", not bool(S.spisfinite(FM[fa](c))), (na, fa, i, j, bad))
                T.call(3); T.state("unary", na, fa)
        return
    if kind == "square":
        rs = np.random.RandomState(3)
        for n in (1, 2, 3, 5):
            for t in range(6):
                a = rs.randn(n, n) + (t % 3) * np.eye(n)
                for sgn in (1, -1):
                    b = a.copy(); b[0] *= sgn
                    want = np.log(abs(np.linalg.det(b)))
                    for f in FM:
                        T.close("splogdet/" + f, S.splogdet(FM[f](b)), want, 1e-9, atol=1e-9)
                        r = S.spinv(FM[f](b))
                        T.close("spinv/" + f, dn(r).reshape(n, n), np.linalg.inv(b), 1e-7, atol=1e-9)
                        T.call(2); T.state("sq", n, t, sgn, f)
                for f in FM:
                    for v in (0.0, 2.5):
                        d = a.copy(); np.fill_diagonal(d, v)
                        T.close("fill/" + f, dn(S.spfill_diagonal(FM[f](a.copy()), v)), d, 0)
        return
    if kind == "inv":
        wk, rho = case[1:]
        w = getw(wk)
        W = worlds.dense(w)
        n = len(W)
        inv = np.linalg.inv(np.eye(n) - rho * W)
        rs = np.random.RandomState(n)
        before = worlds.snapshot_w(w)
        for q in (1, 2):
            for dt in ("f", "i"):
                d = rs.randn(n, q) * 3
                d = np.round(d).astype(int) if dt == "i" else d
                for form in ("W", "sparse"):
                    ww = w if form == "W" else w.sparse
                    for post in (False, True):
                        for meth in ("power_exp", "true_inv"):
                            d0 = d.copy()
                            r = U.inverse_prod(ww, d, rho, post_multiply=post, inv_method=meth)
                            T.call(); T.state(wk, rho, q, dt, form, post, meth)
                            T.close("%s/%s/post%d" % (meth, form, post), r, d.T @ inv if post else inv @ d, 1e-7, atol=1e-7)
                            T.true("data untouched", (d == d0).all())
                T.raises("unknown method", lambda: U.inverse_prod(w, d, rho, inv_method="exact"))
        if abs(rho) < 1:
            y, py, wy = rs.randn(n, 1), rs.randn(n, 1), rs.randn(n, 1)
            for r_ in (rho, np.array([rho])):
                pe, e, warn = U.sp_att(w, y, py, wy, r_)
                T.close("sp_att", pe, inv @ (py - rho * wy), 1e-7, atol=1e-7)
                T.close("sp_att/e", e, y - inv @ (py - rho * wy), 1e-7, atol=1e-7)
                T.true("sp_att/warn", not warn, warn)
        T.true("weights untouched", worlds.snapshot_w(w) == before)
        return
    if kind == "lags":
        w = getw(case[1]); W = worlds.dense(w); n = len(W)
        rs = np.random.RandomState(n)
        for k in (1, 3):
            x = rs.randn(n, k)
            P = [x]
            for _ in range(5):
                P.append(W @ P[-1])
            for p in (1, 2, 3, 4):
                T.close("get_lags", dn(U.get_lags(w, x, p)), np.hstack(P[1:p + 1]), 1e-12, atol=1e-12, shape=True)
                T.call(); T.state("lags", case[1], k, p)
                for s in range(1, p):
                    lo, hi = U.get_lags_split(w, x, p, s)
                    T.close("split_lo", lo, np.hstack(P[1:s + 1]), 1e-12, atol=1e-12, shape=True)
                    T.close("split_hi", hi, np.hstack(P[s + 1:p + 1]), 1e-12, atol=1e-12, shape=True)
                    T.call(); T.state("split", case[1], k, p, s)
                for s in (0, p, p + 1):
                    T.raises("split_bad", lambda: U.get_lags_split(w, x, p, s))
            for lam in (-0.7, 0.0, 0.4):
                for ww in (w, w.sparse):
                    T.close("filter", U.get_spFilter(ww, lam, x), x - lam * W @ x, 1e-12, atol=1e-12)
                    T.close("filter/csr", dn(U.get_spFilter(ww, lam, SP.csr_matrix(x))), x - lam * W @ x, 1e-12, atol=1e-12)
                for tt in (2, 3):
                    xx = rs.randn(n * tt, k)
                    T.close("filter/panel", U.get_spFilter(w, lam, xx), np.vstack([xx[i * n:(i + 1) * n] - lam * W @ xx[i * n:(i + 1) * n] for i in range(tt)]), 1e-12, atol=1e-12)
            for tt in (1, 2):
                xx = rs.randn(n * tt, k)
                L = lambda a: np.vstack([W @ a[i * n:(i + 1) * n] for i in range(tt)])
                T.close("lags/panel", dn(U.get_lags(w, xx, 2, panel=True)), np.hstack([L(xx), L(L(xx))]), 1e-12, atol=1e-12)
        return
    # divergent expansions are refused
    for wk, rho in (("rookb:4x4", 0.5), ("rookb:4x4", -0.6), ("queen:4x4", 1.2), ("rook:4x4", -1.3)):
        w = getw(wk)
        d = np.arange(16.0).reshape(-1, 1)
        for post in (False, True):
            T.raises("refused", lambda: U.inverse_prod(w, d, rho, post_multiply=post))
            T.call(); T.state(wk, rho, post)
        y = d
        pe, e, warn = U.sp_att(w, y, y, y, rho if abs(rho) >= 1 else 1.0 * np.sign(rho))
        T.true("sp_att/warned", bool(warn)); T.close("sp_att/zero", pe, 0 * y, 0)
        T.raises("sp_att/hard", lambda: U.sp_att(w, y, y, y, 1.0 * np.sign(rho), hard_bound=True))
