"""P24: SUR, 3SLS and SUR-lag give the system estimator."""
import contextlib, io, itertools
import numpy as np
import pandas as pd
import spreg
import ref_sur as S
import regs, worlds

META = {"rule": "a state is (system: number of equations and of regressors, endogenous variables and instruments in each; weights; estimator options; regimes; form of the data)",
        "assumptions": ["full-rank regressors and instruments"]}

SYS = {"quick": [(2,), (2, 2), (1, 3), (2, 3, 1), (2, 2, 2), (1, 2, 3, 1), (2, 2, 2, 3)], "thorough": [(1,), (2,), (3,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 3, 1), (2, 2, 2), (1, 2, 3, 1), (2, 2, 2, 2), (2, 2, 2, 3), (1, 1, 2, 2, 3)]}
WK = {"quick": ["rook:6x6", "knn:5x8"], "thorough": ["rook:6x6", "knn:5x8", "queen:7x7", "odd:6x6", "isl:6x7"]}
REG = {"quick": [None, "alt", "three_s"], "thorough": [None, "alt", "three_s", "cols", "rows_s", "three", "uneq"]}


def cases(tier):
    out = []
    for ks in SYS[tier]:
        for wk in WK[tier]:
            for rg in REG[tier]:
                out.append(("%s/%s/%s" % ("-".join(map(str, ks)), wk.replace(":", ""), rg or "noreg"), (ks, wk, rg, tier)))
    for i in range(len(PERIODS)):
        for j in range(len(UNITS)):
            out.append(("long/t%d/s%d" % (i, j), ("long", i, j)))
    return out


PERIODS = [[1, 2], [8, 9, 10], [99, 100, 101, 1000], [-1, 0, 1], [1960, 1970, 1980, 1990], [9.5, 10.5, 100.25], ["a", "b", "ab"], ["t1", "t2", "t10"]]
UNITS = [lambda n: list(range(n)), lambda n: [7 + 3 * i for i in range(n)], lambda n: ["u%03d" % i for i in range(n)], lambda n: [99 - i for i in range(n)]]


def longform(case, T):
    """one long table (a row per unit and period, in any order): an equation per period in increasing order, the units of every equation in the order in which they come first"""
    per, n = PERIODS[case[1]], 14
    units = UNITS[case[2]](n)
    g = np.random.default_rng(17 * case[1] + case[2])
    rows = [(u, t) + tuple(g.normal(size=3)) for u in units for t in per]
    for order in ("units", "periods", "reversed", "shuffled"):
        rr = {"units": rows, "periods": sorted(rows, key=lambda v: per.index(v[1])), "reversed": rows[::-1], "shuffled": [rows[i] for i in g.permutation(len(rows))]}[order]
        d = pd.DataFrame(rr, columns=["sid", "tid", "y", "a", "b"])
        T.state(order); T.call()
        by, bx, ny, nx = spreg.sur_dictxy(d, ["y"], [["a", "b"]], space_id=["sid"], time_id=["tid"])
        bz, nz = spreg.sur_dictZ(d, [["a", "b"]], form="plm", space_id=["sid"], time_id=["tid"])
        want_y, want_x = {}, {}
        first = list(dict.fromkeys(v[0] for v in rr))
        for r, t in enumerate(sorted(per)):
            sub = sorted([v for v in rows if v[1] == t], key=lambda v: first.index(v[0]))
            want_y[r] = np.array([[v[2]] for v in sub])
            want_x[r] = np.array([[1., v[3], v[4]] for v in sub])
            T.close("%s/y%d" % (order, r), by[r], want_y[r], 1e-14)
            T.close("%s/x%d" % (order, r), bx[r], want_x[r], 1e-14)
            T.close("%s/z%d" % (order, r), bz[r][:, -2:], want_x[r][:, 1:], 1e-14)
            T.true("%s/names%d" % (order, r), ny[r] == "y_%s" % t and [str(v) for v in nx[r]][1:] == ["a_%s" % t, "b_%s" % t] and (isinstance(t, float) or [str(v) for v in nz[r]][-2:] == ["a_%s" % t, "b_%s" % t]), "%s %s %s" % (ny[r], nx[r], nz[r]))
        m, k = spreg.SUR(by, bx), spreg.SUR(want_y, want_x)
        for r in range(len(per)):
            T.close("%s/b%d" % (order, r), m.bSUR[r], k.bSUR[r], 1e-9)


def system(ks, wk, seed=0, endog=None, lam=0.3, rho=0.35):
    w = worlds.make_w(wk)
    W = worlds.dense(w)
    n = w.n
    rs = np.random.RandomState(seed + 10 * len(ks))
    com = rs.randn(n, 1)
    y, X, ye, q = {}, {}, {}, {}
    for r, k in enumerate(ks):
        x = 2 * rs.rand(n, k) + 0.4 * rs.randn(n, k) + r
        e = 1 if endog is None else endog[r]
        m = e + (r % 2)
        qq = 2 * rs.rand(n, m) + 0.3 * rs.randn(n, m)
        eps = (0.6 * com + 0.7 * rs.randn(n, 1)) * (1 + 0.4 * r)
        ee = qq[:, :e] + 0.5 * qq[:, -1:] + 0.5 * eps + 0.4 * rs.randn(n, e)
        mu = 1 + x @ np.array([[1.0], [-0.6], [0.4]])[:k] + 0.5 * ee.sum(1, keepdims=True)
        y[r] = np.linalg.solve(np.eye(n) - rho * W, mu + np.linalg.solve(np.eye(n) - lam * W, eps))
        X[r], ye[r], q[r] = np.hstack([np.ones((n, 1)), x]), ee, qq
    return w, W, y, X, ye, q


def frame(y, X, ye, q):
    """the same data as columns of a table, with the lists of names"""
    d, ny, nx, ne, nq = {}, [], [], [], []
    for r in y:
        d["Y%d" % r] = y[r][:, 0]; ny.append("Y%d" % r)
        for dst, src, t, lo in ((nx, X, "X", 1), (ne, ye, "E", 0), (nq, q, "Q", 0)):
            cols = []
            for j in range(lo, src[r].shape[1]):
                c = "%s%d%d" % (t, r, j)
                d[c] = src[r][:, j]; cols.append(c)
            dst.append(cols)
    return pd.DataFrame(d), ny, nx, ne, nq


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def D(a):
    return np.asarray(a.todense() if hasattr(a, "todense") else a, float)


def lst(d):
    return [d[r] for r in range(len(d))]


def common(T, t, m, b, V, sig, y, Z, bname, inf):
    """coefficients, variances, residuals, correlation and the coefficient table"""
    for r in range(len(y)):
        T.close("%s/b%d" % (t, r), getattr(m, bname)[r], b[r], rtol=1e-6, atol=1e-8)
    T.close(t + "/varb", m.varb, V, rtol=1e-6, atol=1e-7 * abs(V).max())
    T.close(t + "/sig", m.sig, sig, rtol=1e-7, atol=1e-7 * abs(sig).max())
    d = np.sqrt(np.diag(sig))
    T.close(t + "/corr", m.corr, sig / np.outer(d, d), rtol=1e-7, atol=1e-7)
    T.close(t + "/bigE", m.bigE, S.resid(y, Z, b), rtol=1e-6, atol=1e-7)
    got = np.vstack(lst(inf))
    want = S.table(b, V)
    T.close(t + "/se", got[:, 0], want[:, 0], rtol=1e-6)
    T.close(t + "/z", got[:, 1], want[:, 1], rtol=1e-6, atol=1e-7)
    T.close(t + "/p", got[:, 2], want[:, 2], rtol=1e-5, atol=1e-9)
    T.eq(t + "/n", (m.n, m.n_eq, [int(k) for k in np.ravel(m.bigK)]), (len(y[0]), len(y), [z.shape[1] for z in Z]))


def run(case, T):
    if case[0] == "long":
        return longform(case, T)
    ks, wk, rg, tier = case
    w, W, y, X, ye, q = system(ks, wk)
    n = w.n
    reg = rset = None
    if rg:
        reg = regs.regimes(rg, *(int(s) for s in wk.split(":")[1].split("x")))
        rset = sorted(set(reg))
    cutr = lambda A: regs.split(A, [True] * A.shape[1], reg, rset) if rg else np.asarray(A, float)
    yy = lst(y)
    XX = [cutr(X[r]) for r in X]
    kw = {"regimes": reg} if rg else {}
    fits(T, "sur", y, yy, X, XX, kw, w, tier)
    # three stage least squares
    for endog in ([1] * len(ks), [1 + (r % 2) for r in range(len(ks))]):
        w, W, y, X, ye, q = system(ks, wk, endog=endog)
        yy, XX = lst(y), [cutr(X[r]) for r in X]
        YE, Q = [cutr(ye[r]) for r in ye], [cutr(q[r]) for r in q]
        t = "3sls/%s" % "".join(map(str, endog))
        Z = [np.hstack([a, c]) for a, c in zip(XX, YE)]
        H = [np.hstack([a, c]) for a, c in zip(XX, Q)]
        if max(h.shape[1] for h in H) < n - 3:
            m = quiet(spreg.ThreeSLS, dict(y), dict(X), dict(ye), dict(q), **kw)
            three(T, t, m, yy, Z, H)
            if len(yy) > 1:            # a single name of each would mean data in long format
                df, ny, nx, ne, nq = frame(y, X, ye, q)
                m2 = quiet(spreg.ThreeSLS, ny, nx, ne, nq, df=df, **kw)
                T.call()
                T.close(t + "/list", np.vstack(lst(m2.b3SLS)), np.vstack(lst(m.b3SLS)), rtol=1e-9)
                T.close(t + "/list/varb", m2.varb, m.varb, rtol=1e-8)
        # spatial lag
        for wl in (1, 2) if tier == "quick" else (1, 2, 3):
            for lq in (True, False):
                for oth in (False, True):
                    for sep in ((False, True) if rg else (False,)):
                        if not oth and not lq:
                            continue
                        t = "lag/%s/w%d/lq%d/oth%d/sep%d" % ("".join(map(str, endog)), wl, lq, oth, sep)
                        if not oth and endog != [1] * len(ks):
                            continue
                        Wy = [W @ a for a in yy]
                        Z, H = [], []
                        for r in range(len(ks)):
                            if sep:
                                e = cutr(np.hstack([ye[r], Wy[r]]) if oth else Wy[r])
                            else:
                                e = np.hstack([cutr(ye[r]), Wy[r]]) if oth else Wy[r]
                            Z.append(np.hstack([XX[r], e]))
                            h = [XX[r]] + ([Q[r]] if oth else [])
                            a, c = XX[r][:, 1:], Q[r]
                            for _ in range(wl):
                                a, c = W @ a, W @ c
                                h += [a] + ([c] if oth and lq else [])
                            H.append(np.hstack(h))
                        if max(h.shape[1] for h in H) > n - 3 or min(np.linalg.svd(h / np.linalg.norm(h, axis=0), compute_uv=False)[-1] for h in H) < 1e-3:
                            T.state(t + "/singular")
                            continue
                        kk = dict(kw, w_lags=wl, lag_q=lq)
                        if oth:
                            kk.update(bigyend=dict(ye), bigq=dict(q))
                        if rg:
                            kk["regime_lag_sep"] = sep
                        m = quiet(spreg.SURlagIV, dict(y), dict(X), w=w, **kk)
                        three(T, t, m, yy, Z, H)
                        if wl == 1 and lq and len(yy) > 1:
                            df, ny, nx, ne, nq = frame(y, X, ye, q)
                            if oth:
                                kk.update(bigyend=ne, bigq=nq)
                            m2 = quiet(spreg.SURlagIV, ny, nx, w=w, df=df, **kk)
                            T.call()
                            T.close(t + "/list", np.vstack(lst(m2.b3SLS)), np.vstack(lst(m.b3SLS)), rtol=1e-9)


def three(T, t, m, yy, Z, H):
    T.call()
    T.state(t)
    Zh = [S.project(h, z) for h, z in zip(H, Z)]
    b2 = [np.linalg.lstsq(zh, a, rcond=None)[0] for zh, a in zip(Zh, yy)]
    sig = S.cov(S.resid(yy, Z, b2))
    b, V = S.gls(yy, Z, sig, Zh)
    for r in range(len(yy)):
        T.close("%s/2sls%d" % (t, r), m.b2SLS[r], b2[r], rtol=1e-6, atol=1e-7)
        T.close("%s/bigZ%d" % (t, r), D(m.bigZ[r]), Z[r], rtol=1e-10, atol=1e-12)
    T.close(t + "/tslsE", m.tslsE, S.resid(yy, Z, b2), rtol=1e-6, atol=1e-7)
    common(T, t, m, b, V, sig, yy, Z, "b3SLS", m.tsls_inf)


def fits(T, t0, y, yy, X, XX, kw, w, tier):
    n = len(yy[0])
    b0 = S.ols(yy, XX)
    E0 = S.resid(yy, XX, b0)
    for it, mx, eps in [(False, 5, 1e-5)] + [(True, mx, eps) for mx in (1, 2, 5, 200) for eps in (1e-5, 1e-10)]:
        t = "%s/iter%d/max%d/eps%g" % (t0, it, mx, eps)
        m = quiet(spreg.SUR, dict(y), dict(X), w=w, iter=it, maxiter=mx, epsilon=eps, **kw)
        T.call()
        T.state(t)
        sig = S.cov(E0)
        b, V = S.gls(yy, XX, sig)
        ld = [np.log(np.diag(sig)).sum(), np.linalg.slogdet(sig)[1]]
        steps = 0
        if it:
            while abs(ld[-1] - ld[-2]) > eps and steps < mx:
                steps += 1
                sig = S.cov(S.resid(yy, XX, b))
                b, V = S.gls(yy, XX, sig)
                ld.append(np.linalg.slogdet(sig)[1])
        T.eq(t + "/niter", m.niter, steps if it else 1)
        common(T, t, m, b, V, sig, yy, XX, "bSUR", m.sur_inf)
        for r in range(len(yy)):
            T.close("%s/bOLS%d" % (t, r), m.bOLS[r], b0[r], rtol=1e-7, atol=1e-8)
        T.close(t + "/olsE", m.olsE, E0, rtol=1e-7, atol=1e-8)
        T.close(t + "/bigYP", m.bigYP, np.hstack([x @ c for x, c in zip(XX, b)]), rtol=1e-7, atol=1e-8)
        T.close(t + "/sig_ols", m.sig_ols, S.cov(E0), rtol=1e-8, atol=1e-12)
        T.close(t + "/ldet", (m.ldetS0, m.ldetS1), (ld[0], np.linalg.slogdet(sig)[1]), rtol=1e-8, atol=1e-9)
        T.close(t + "/llik", m.llik, -n / 2 * (len(yy) * (1 + np.log(2 * np.pi)) + np.linalg.slogdet(sig)[1]), rtol=1e-9)
    if len(yy) == 1:
        return
    df, ny, nx, ne, nq = frame(y, X, {r: np.zeros((n, 0)) for r in y}, {r: np.zeros((n, 0)) for r in y})
    m2 = quiet(spreg.SUR, ny, nx, df=df, **kw)
    m = quiet(spreg.SUR, dict(y), dict(X), **kw)
    T.call(2)
    T.close(t0 + "/list", np.vstack(lst(m2.bSUR)), np.vstack(lst(m.bSUR)), rtol=1e-9)
    if not kw:
        T.eq(t0 + "/list/names", (m2.name_bigy, m2.name_bigX), ({r: v for r, v in enumerate(ny)}, {r: ["Constant_%d" % (r + 1)] + v for r, v in enumerate(nx)}))
    if len(set(x.shape[1] for x in XX)) == 1 and len(XX) > 1:    # identical regressors: the system estimator is least squares equation by equation
        same = {r: X[0] for r in X}
        m3 = quiet(spreg.SUR, dict(y), same, **kw)
        T.call()
        for r in range(len(yy)):
            T.close("%s/same%d" % (t0, r), m3.bSUR[r], np.linalg.lstsq(XX[0], yy[r], rcond=None)[0], rtol=1e-6, atol=1e-7)
