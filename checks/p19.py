"""P19: non-spatial diagnostics by definition."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
import ref, worlds

META = {"rule": "a state is one (design kind, k, seed, switches) combination; every non-spatial diagnostic of OLS is recomputed from its definition (auxiliary regressions by QR)"}

KINDS = ["cont", "dummy1", "dummies", "exclusive", "mixed", "pm1", "int3", "collin", "skew", "tiny", "square", "abs"]


def cases(tier):
    out = []
    for kind in KINDS:
        for k in (1, 2, 3, 4, 6):
            for n in (15, 25, 40) if tier == "quick" else (15, 16, 20, 25, 31, 40, 64):
                out.append(("%s/k%d/n%d" % (kind, k, n), (kind, k, n)))
    for d in range(3):
        out.append(("ally/d%d" % d, ("ally", d, 6 if tier == "quick" else 7)))
    out.append(("funcs", ("funcs",)))
    for n in (15, 25, 40) if tier == "quick" else (15, 16, 20, 25, 31, 40, 64):
        for k in (1, 2, 3):
            out.append(("auxz/n%d/k%d" % (n, k), ("auxz", n, k)))
    out.append(("criteria", ("criteria",)))
    return out


def design(kind, k, n):
    rs = np.random.RandomState(17 * n + k)
    x = rs.randn(n, k) * 2 + 3 + np.arange(k)
    y = 1 + x.sum(1, keepdims=True) * 0.5 + rs.randn(n, 1) * (0.5 + 0.3 * np.abs(x[:, :1]))
    d = lambda j: np.array([(i * (j + 3) + i // 4 + (i * i) // 7) % 2 for i in range(n)], float)
    if kind == "dummy1":
        x[:, 0] = d(0)
    elif kind == "dummies":
        for j in range(k):
            x[:, j] = d(j)
    elif kind == "exclusive":          # mutually exclusive dummies: products are identically zero
        c = np.array([(i * 5 + i // 3) % (k + 1) for i in range(n)])
        for j in range(k):
            x[:, j] = c == j
    elif kind == "mixed":
        for j in range(0, k, 2):
            x[:, j] = d(j)
    elif kind == "pm1":
        x[:, -1] = 2 * d(1) - 1
    elif kind == "int3":
        x = np.round(x)
    elif kind == "collin" and k > 1:
        x[:, 1] = x[:, 0] + 0.05 * x[:, 1]
    elif kind == "skew":
        x = np.exp(x / 2.5)
    elif kind == "tiny":               # columns with small sums of squares
        x = x * 10.0 ** -(2 + np.arange(k))
    elif kind == "square" and k > 1:   # a regressor equal to the square of another
        x[:, 1] = x[:, 0] ** 2
    elif kind == "abs" and k > 1:      # regressors with the same squares
        x[:, 0] -= x[:, 0].mean()
        x[:, 1] = np.abs(x[:, 0])
    return x, y


def uniq_cols(Z):
    keep = []
    for j in range(Z.shape[1]):
        if not any(np.array_equal(Z[:, j], Z[:, i]) for i in keep):
            keep.append(j)
    return Z[:, keep]


def rsq(y, X):
    b = la.lstsq(X, y, rcond=None)[0]
    u = y - X @ b
    return 1 - (u ** 2).sum() / ((y - y.mean()) ** 2).sum()


def indep(A):
    """columns that are not combinations of earlier ones"""
    A = A / np.sqrt((A ** 2).sum(0))
    keep, Q = [], np.zeros((A.shape[0], 0))
    for j in range(A.shape[1]):
        v = A[:, [j]]
        v = v - Q @ (Q.T @ v)
        v = v - Q @ (Q.T @ v)
        nv = la.norm(v)
        if nv > 1e-8:
            keep.append(j)
            Q = np.hstack([Q, v / nv])
    return keep


def check(T, key, m, x, y, white=False, vif=False, tol=1e-6, X=None):
    n = y.shape[0]
    regimes = X is not None             # complete design given: no overall constant among its columns
    X = np.hstack([np.ones((n, 1)), x]) if X is None else X
    k = X.shape[1]
    r = ref.ols(y, X)
    u = r.u
    s2 = (u ** 2).mean()
    S, K = (u ** 3).mean() / s2 ** 1.5, (u ** 4).mean() / s2 ** 2
    jb = n * (S ** 2 / 6 + (K - 3) ** 2 / 24)
    T.close(key + "jb", m.jarque_bera["jb"], jb, tol, atol=1e-9)
    T.close(key + "jb_p", m.jarque_bera["pvalue"], stats.chi2.sf(jb, 2), tol, atol=1e-9)
    T.eq(key + "jb_df", m.jarque_bera["df"], 2)
    Z = uniq_cols(X * X)
    df = Z.shape[1] - 1
    if la.matrix_rank(Z / np.abs(Z).max(0)) == Z.shape[1] and df > 0:
        g = u ** 2 / s2 - 1
        pg = Z @ la.lstsq(Z, g, rcond=None)[0]
        bp = 0.5 * ref.sc(g.T @ pg)
        T.close(key + "bp", m.breusch_pagan["bp"], bp, tol, atol=1e-8)
        T.eq(key + "bp_df", m.breusch_pagan["df"], df)
        T.close(key + "bp_p", m.breusch_pagan["pvalue"], stats.chi2.sf(bp, df), tol, atol=1e-8)
        v = ((u ** 2 - s2) ** 2).mean()
        e = u ** 2 - s2
        kb = ref.sc(e.T @ (Z @ la.lstsq(Z, e, rcond=None)[0])) / v
        T.close(key + "kb", m.koenker_bassett["kb"], kb, tol, atol=1e-8)
        T.eq(key + "kb_df", m.koenker_bassett["df"], df)
        T.close(key + "kb_p", m.koenker_bassett["pvalue"], stats.chi2.sf(kb, df), tol, atol=1e-8)
    N = X / np.sqrt((X ** 2).sum(0))
    sv = la.svd(N, compute_uv=False)
    ci = sv[0] / sv[-1]
    T.close(key + "ci", m.mulColli, ci, 1e-5)
    if white:
        if ci > 30.001:
            T.true(key + "white-ci", isinstance(m.white, str), m.white)
        elif ci < 29.999:
            cols = [X[:, i] * X[:, j] for i in range(k) for j in range(i, k)]
            A = np.column_stack([X] + cols)
            A = A[:, [j for j in range(A.shape[1]) if np.ptp(A[:, j]) > 0]]
            A = uniq_cols(A)
            A = np.hstack([np.ones((n, 1)), A])
            if regimes and A.shape[1] < n:
                A = A[:, indep(A)]
            if A.shape[1] < n and la.matrix_rank(A / np.abs(A).max(0)) == A.shape[1]:
                c = la.cond((A / np.sqrt((A ** 2).sum(0))))
                t = max(tol, 1e-13 * la.cond(A) ** 2)
                if t < 1e-3:
                    wh = n * rsq(u ** 2, A)
                    T.close(key + "white", m.white["wh"], wh, t, atol=n * t)
                    T.eq(key + "white_df", m.white["df"], A.shape[1] - 1)
                    T.close(key + "white_p", m.white["pvalue"], stats.chi2.sf(m.white["wh"], A.shape[1] - 1), 1e-7)
    if vif:
        import spreg
        from spreg.diagnostics import vif as VIF
        vv = VIF(m)
        T.eq(key + "vif_n", len(vv), k)
        for j in range(1, k):
            t = 1 - rsq(X[:, [j]], np.delete(X, j, 1))
            T.close(key + "vif%d" % j, vv[j][0], 1 / t, 1e-5)
            T.close(key + "tol%d" % j, vv[j][1], t, 1e-5)
            row = [l for l in m.summary.split("\n") if l.strip().startswith(m.name_x[j] + " ") and len(l.split()) == 3]
            T.true(key + "vif-row%d" % j, bool(row) and abs(float(row[-1].split()[1]) - 1 / t) < 1e-3 * (1 + 1 / t), row)


def run(case, T):
    import spreg
    from spreg import diagnostics as D
    if case[0] == "ally":
        _, d, n = case
        x = [np.arange(n, dtype=float).reshape(-1, 1), np.array([[i % 2] for i in range(n)], float),
             np.array([[i, (i * 3) % 4] for i in range(n)], float)][d]
        X = np.hstack([np.ones((n, 1)), x])
        M = np.eye(n) - X @ la.inv(X.T @ X) @ X.T
        for yy in itertools.product((0.0, 1.0, 3.0), repeat=n):
            y = np.array(yy).reshape(-1, 1)
            u = M @ y
            if (u ** 2).sum() < 1e-6 or np.ptp(u ** 2) < 1e-6:
                continue
            m = spreg.OLS(y, x)
            T.call(); T.state(d, yy)
            check(T, "", m, x, y)
        return
    if case[0] == "criteria":          # information criteria of any result, with or without a likelihood of its own
        from types import SimpleNamespace as NS
        for n, k, s2, ll in itertools.product((5, 12, 100), (1, 2, 7), (1e-6, .5, 1., 3e4), (None, -1234.5, 0., 17.25)):
            r = NS(n=n, k=k, utu=s2 * n, **({} if ll is None else {"logll": ll}))
            T.state(n, k, s2, ll); T.call()
            L = -.5 * n * (np.log(2 * np.pi) + np.log(s2) + 1) if ll is None else ll
            key = "n%d_k%d_s%g_%s/" % (n, k, s2, ll)
            T.close(key + "loglik", D.log_likelihood(r), -.5 * n * (np.log(2 * np.pi) + np.log(s2) + 1), 1e-10, 1e-10)
            T.close(key + "akaike", D.akaike(r), 2 * k - 2 * L, 1e-10, 1e-10)
            T.close(key + "schwarz", D.schwarz(r), np.log(n) * k - 2 * L, 1e-10, 1e-10)
        return
    if case[0] == "auxz":              # Breusch-Pagan and Koenker-Bassett with auxiliary regressors of the caller
        _, n, k = case
        x, y = design("cont", k, n)
        m = spreg.OLS(y, x)
        T.call()
        u2 = ref.ols(y, np.hstack([np.ones((n, 1)), x])).u ** 2
        g = u2 / u2.mean() - 1
        pool = [x[:, :1], x[:, -1:] ** 2, np.log(1 + np.abs(x[:, :1])), x[:, :1] * y,
                np.sin(np.arange(n)).reshape(-1, 1), (np.arange(n) % 3 == 0).reshape(-1, 1) * 1.0]
        for pick in itertools.product((0, 1, 2), repeat=len(pool)):     # each column absent, once or twice
            cols = [c for c, r in zip(pool, pick) for _ in range(r)]
            if not cols:
                continue
            z = np.hstack([np.ones((n, 1))] + cols)
            z0 = z.copy()
            Z = uniq_cols(z)
            df = Z.shape[1] - 1
            if la.cond(Z / np.sqrt((Z ** 2).sum(0))) > 1e4:
                continue
            b = D.breusch_pagan(m, z)
            q = D.koenker_bassett(m, z)
            T.call(2); T.state(case, pick)
            ess = ref.sc(g.T @ (Z @ la.lstsq(Z, g, rcond=None)[0]))
            kb = n * ess / (g ** 2).sum()
            for nm, a, v in (("bp", b, 0.5 * ess), ("kb", q, kb)):
                T.close(nm, a[nm], v, 1e-6, atol=1e-8)
                T.eq(nm + "_df", a["df"], df)
                T.close(nm + "_p", a["pvalue"], stats.chi2.sf(v, df), 1e-6, atol=1e-8)
            T.true("z untouched", np.array_equal(z, z0))
        return
    if case[0] == "funcs":
        wd = worlds.World("rook:5x5", k=3, e=0, m=0)
        m = spreg.OLS(wd.y, wd.x)
        T.call()
        for r in (1, 2, 3):
            f, p = D.f_stat(m, df=r)
            a, b = ref.ols(wd.y, wd.X), ref.ols(wd.y, wd.X[:, :-r])
            F = ((b.utu - a.utu) / r) / (a.utu / (a.n - a.k))
            T.close("f_df%d" % r, f, F, 1e-7)
            T.close("f_p%d" % r, p, stats.f.sf(F, r, a.n - a.k), 1e-6)
        for j in range(2, 4):
            m0 = spreg.OLS(wd.y, wd.x[:, :j - 1])
            lr = D.likratiotest(m0, m)
            w = 2 * (m.logll - m0.logll)
            T.close("lr%d" % j, lr["likr"], w, 1e-10)
            T.eq("lr_df%d" % j, lr["df"], m.k - m0.k)
            T.close("lr_p%d" % j, lr["p-value"], stats.chi2.sf(w, m.k - m0.k), 1e-9)
        for cols in itertools.product((0, 1), repeat=3):
            A = np.column_stack([np.full(5, 2.0) if c else np.arange(5) * 1.5 for c in cols])
            T.eq("constant_check", bool(D.constant_check(A)), bool(any(cols)))
        return
    kind, k, n = case
    x, y = design(kind, k, n)
    X = np.hstack([np.ones((n, 1)), x])
    if la.matrix_rank(X) < k + 1 or n < k + 4:
        T.true("skip", True)
        return
    for white, vif, s2 in itertools.product([True, False], [True, False], [True, False]):
        if white:
            cols = [X[:, i] * X[:, j] for i in range(k + 1) for j in range(i, k + 1)]
            A = uniq_cols(np.column_stack([c for c in cols if np.ptp(c) > 0]))
            A = np.hstack([np.ones((n, 1)), A])
            if la.matrix_rank(A / np.abs(A).max(0)) < A.shape[1] or A.shape[1] >= n:
                continue       # the White auxiliary regression itself is not identified
        m = spreg.OLS(y, x, white_test=white, vif=vif, sig2n_k=s2)
        T.call(); T.state(case, white, vif, s2)
        check(T, "w%dv%d/" % (white, vif), m, x, y, white, vif)
        T.true("white-off", white or not hasattr(m, "white"))
