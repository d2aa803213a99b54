"""P25: spatial-error SUR and SUR diagnostics equal their definitions."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
from scipy.linalg import block_diag
from scipy.optimize import minimize
import spreg
import ref_gmm, ref_ml, ref_sur as S
import regs, worlds
from p24 import SYS, WK, REG, system, quiet, lst, D, common

META = {"rule": "a state is (system: number of equations and of regressors, weights, estimator, options, regimes); tests and estimates compared with dense reference algebra, spatial parameters with the exact minimiser of the moments or by local improvement of the exact likelihood",
        "assumptions": ["full-rank regressors and instruments"]}


def cases(tier):
    out = []
    for ks in SYS[tier]:
        for wk in WK[tier]:
            for rg in REG[tier]:
                for part in ("tests", "gm", "ml"):
                    if part == "ml" and len(ks) == 1:
                        continue
                    out.append(("%s/%s/%s/%s" % (part, "-".join(map(str, ks)), wk.replace(":", ""), rg or "noreg"), (part, ks, wk, rg, tier)))
    for ks in ((1, 2), (2, 2, 2)):
        for lam in (-0.97, 0.93):       # spatial parameters close to the ends of the interval
            for part in ("gm", "ml"):
                out.append(("%s/%s/lam%g" % (part, "-".join(map(str, ks)), lam), (part, ks, "rook:6x6", None, tier, lam)))
    return out


def eqtest(T, t, got, want, atol=1e-6):
    """(statistic, df, p-value)"""
    T.close(t, [float(np.ravel(v)[0]) for v in got], want, rtol=1e-5, atol=atol)


def run(case, T):
    part, ks, wk, rg, tier = case[:5]
    w, W, y, X, ye, q = system(ks, wk, **({"lam": case[5], "rho": 0.0} if len(case) > 5 else {}))
    reg = rset = None
    if rg:
        reg = regs.regimes(rg, *(int(s) for s in wk.split(":")[1].split("x")))
        rset = sorted(set(reg))
    R = len(rset) if rg else 1
    cutr = lambda A: regs.split(A, [True] * A.shape[1], reg, rset) if rg else np.asarray(A, float)
    yy, XX = lst(y), [cutr(X[r]) for r in X]
    kw = {"regimes": reg} if rg else {}
    n, m_eq = w.n, len(ks)
    if part == "tests":
        for it, sd in itertools.product((False, True), (False, True)):
            t = "sur/iter%d/spat%d" % (it, sd)
            m = quiet(spreg.SUR, dict(y), dict(X), w=w, iter=it, spat_diag=sd, maxiter=50, **kw)
            T.call(); T.state(t)
            S0 = S.cov(S.resid(yy, XX, S.ols(yy, XX)))
            M = m_eq * (m_eq - 1) // 2
            ll = lambda Sg: np.log(la.det(Sg))
            lr = n * (np.log(np.diag(S0)).sum() - ll(m.sig))
            T.close(t + "/lr", (m.lrtest[0], m.lrtest[2]), (lr, stats.chi2.sf(lr, M)), rtol=1e-6, atol=1e-8)
            d = np.sqrt(np.diag(S0))
            lm = n * sum((S0[i, j] / d[i] / d[j]) ** 2 for i in range(m_eq) for j in range(i))
            T.close(t + "/lm", (m.lmtest[0], m.lmtest[2]), (lm, stats.chi2.sf(lm, M)), rtol=1e-6, atol=1e-8)
            T.eq(t + "/df", (m.lrtest[1], m.lmtest[1]), (M, M))
            if sd:
                eqtest(T, t + "/lmerror", m.lmEtest, lm_error(W, m, yy, XX))
                eqtest(T, t + "/lmlag", m.lmlagtest, lm_lag(W, m, yy, XX))
            else:
                T.eq(t + "/nospat", (m.lmEtest, m.lmlagtest), (None, None))
            chows(T, t, m, m.bSUR, XX, [k + 1 for k in ks], [0] * m_eq, R, 0)
        m = quiet(spreg.SUR, dict(y), dict(X), nonspat_diag=False, **kw)
        T.eq("sur/off", (m.lrtest, m.lmtest), (None, None))
        three(T, y, X, ye, q, ks, kw, R)
        lag(T, w, W, cutr, y, X, ye, q, ks, kw, R)
    elif part == "ml" and R * sum(k + 1 for k in ks) >= n:
        return                          # more coefficients than observations: the system likelihood is unbounded
    elif part == "gm":
        m = quiet(spreg.SURerrorGM, dict(y), dict(X), w, **kw)
        T.call(); T.state("gm")
        E = S.resid(yy, XX, S.ols(yy, XX))
        lam = []
        for r in range(m_eq):
            G, g = ref_gmm.moments_kp(W, E[:, r:r + 1])
            f, loc = ref_gmm.crit(G, g)
            got = float(m.lamsur[r, 0])
            lam.append(got)
            T.close("lam%d" % r, got, loc[0], rtol=1e-3, atol=1e-4, alt=loc[1:])
        flt = lambda v, l: v - l * (W @ v)
        ys, Xs = [flt(a, l) for a, l in zip(yy, lam)], [flt(a, l) for a, l in zip(XX, lam)]
        sig = S.cov(np.hstack([flt(E[:, r:r + 1], lam[r]) for r in range(m_eq)]))
        b, V = S.gls(ys, Xs, sig)
        common(T, "gm", m, b, V, sig, yy, XX, "bSUR", m.sur_inf)
        chows(T, "gm", m, m.bSUR, XX, [k + 1 for k in ks], [0] * m_eq, R, 0)
    else:
        ml(T, w, W, y, X, yy, XX, ks, kw, R, tier)


def lm_error(W, m, yy, XX):
    e = S.resid(yy, XX, lst(m.bSUR))
    k, n = len(yy), len(W)
    Si = la.inv(m.sig)
    P = np.kron(Si, np.eye(n))
    ev = e.T.reshape(-1, 1)
    s, J = np.zeros((k, 1)), np.zeros((k, k))
    Om = np.kron(m.sig, np.eye(n))
    dO = []
    for i in range(k):
        U = np.zeros((k, k)); U[i, i] = 1
        A = np.kron(U, W)
        s[i] = float((ev.T @ P @ A @ ev)[0, 0])
        dO.append(A @ Om + Om @ A.T)        # derivative of the disturbance covariance at zero
    for i in range(k):
        for j in range(k):
            J[i, j] = 0.5 * np.trace(P @ dO[i] @ P @ dO[j])
    v = float((s.T @ la.solve(J, s))[0, 0])
    return v, k, stats.chi2.sf(v, k)


def lm_lag(W, m, yy, XX):
    """score test of the lag parameters with the information on the coefficients partialled out"""
    b = lst(m.bSUR)
    e = S.resid(yy, XX, b)
    k, n = len(yy), len(W)
    P = np.kron(la.inv(m.sig), np.eye(n))
    ev = e.T.reshape(-1, 1)
    B = block_diag(*XX)
    yv, mu = np.vstack(yy), np.vstack([x @ c for x, c in zip(XX, b)])
    s, J, C = np.zeros((k, 1)), np.zeros((k, k)), np.zeros((B.shape[1], k))
    A = []
    for i in range(k):
        U = np.zeros((k, k)); U[i, i] = 1
        A.append(np.kron(U, W))
        s[i] = float((ev.T @ P @ A[i] @ yv)[0, 0])
        C[:, i:i + 1] = B.T @ P @ A[i] @ mu
    Om = np.kron(m.sig, np.eye(n))
    for i in range(k):
        for j in range(k):
            J[i, j] = np.trace(A[i] @ A[j]) + np.trace(A[i].T @ P @ A[j] @ Om) + float((mu.T @ A[i].T @ P @ A[j] @ mu)[0, 0])
    J = J - C.T @ la.inv(B.T @ P @ B) @ C
    v = float((s.T @ la.solve(J, s))[0, 0])
    return v, k, stats.chi2.sf(v, k)


def chows(T, t, m, b, Z, kx, ke, R, common_lag):
    """equality across equations (surchow) and across regimes (chow_regimes); columns of an equation: R blocks of kx, R blocks of ke, then common_lag columns"""
    b = lst(b)
    pos = S.positions(Z)
    K = pos[-1][-1] + 1
    V = np.asarray(m.varb)
    if len(set(len(p) for p in pos)) == 1 and len(pos) > 1:
        T.eq(t + "/surchow/len", len(m.surchow), len(pos[0]))
        for i in range(len(pos[0])):
            eqtest(T, "%s/surchow%d" % (t, i), m.surchow[i], S.wald(S.contrast([p[i] for p in pos], K), b, V))
    elif len(pos) > 1:
        T.eq(t + "/surchow", m.surchow, None)
    if R == 1:
        return
    for r in range(len(pos)):
        joint, each = m.chow_regimes[r]
        cons = []
        for i in range(kx[r] + ke[r]):
            if i < kx[r]:
                p = [pos[r][g * kx[r] + i] for g in range(R)]
            else:
                p = [pos[r][R * kx[r] + g * ke[r] + i - kx[r]] for g in range(R)]
            cons.append(S.contrast(p, K))
            wv = S.wald(cons[-1], b, V)
            T.close("%s/regchow%d/%d" % (t, r, i), each[i], (wv[0], wv[2]), rtol=1e-5, atol=1e-6)
        T.eq("%s/regchow%d/len" % (t, r), len(each), len(cons))
        wv = S.wald(np.vstack(cons), b, V)
        T.close("%s/regchow%d/joint" % (t, r), (float(joint[0]), float(joint[1])), (wv[0], wv[2]), rtol=1e-5, atol=1e-6)


def three(T, y, X, ye, q, ks, kw, R):
    m = quiet(spreg.ThreeSLS, dict(y), dict(X), dict(ye), dict(q), **kw)
    T.call(); T.state("3sls")
    chows(T, "3sls", m, m.b3SLS, [D(m.bigZ[r]) for r in y], [k + 1 for k in ks], [1] * len(ks), R, 0)


def lag(T, w, W, cutr, y, X, ye, q, ks, kw, R):
    for oth in (False, True):
        for sep in ((False, True) if R > 1 else (False,)):
            for sd in (False, True):
                kk = dict(kw, spat_diag=sd)
                if oth:
                    kk.update(bigyend=dict(ye), bigq=dict(q))
                if R > 1:
                    kk["regime_lag_sep"] = sep
                t = "lag/oth%d/sep%d/spat%d" % (oth, sep, sd)
                H = [np.hstack([x] + ([cutr(q[r])] if oth else []) + [W @ a for a in ([x[:, 1:], cutr(q[r])] if oth else [x[:, 1:]])]) for r, x in ((r, cutr(X[r])) for r in X)]
                if max(h.shape[1] for h in H) > w.n - 3 or min(la.svd(h / np.maximum(la.norm(h, axis=0), 1e-300), compute_uv=False)[-1] for h in H) < 1e-3:
                    continue            # instruments linearly dependent
                m = quiet(spreg.SURlagIV, dict(y), dict(X), w=w, **kk)
                T.call(); T.state(t)
                Z = [D(m.bigZ[r]) for r in y]
                ke = [oth + (1 if sep else 0)] * len(ks)
                chows(T, t, m, m.b3SLS, Z, [k + 1 for k in ks], ke, R, 0 if sep else 1)
                if not sd:
                    T.eq(t + "/joinrho", m.joinrho, None)
                    continue
                pos = S.positions(Z)
                K = pos[-1][-1] + 1
                rho = []
                for r in range(len(ks)):
                    rho += [pos[r][R * (ks[r] + 1) + g * ke[r] + ke[r] - 1] for g in range(R)] if sep else [pos[r][-1]]
                A = np.zeros((len(rho), K))
                for i, p in enumerate(rho):
                    A[i, p] = 1
                eqtest(T, t + "/joinrho", m.joinrho, S.wald(A, lst(m.b3SLS), np.asarray(m.varb)))


def sysll(W, yy, XX, b, lam, Sg):
    """exact Gaussian log-likelihood of the system with disturbances (I - lam W)^-1 e, e ~ (Sg (x) I)"""
    n, k = len(W), len(yy)
    A = [np.eye(n) - l * W for l in lam]
    F = np.hstack([a @ (y - x @ c) for a, y, x, c in zip(A, yy, XX, b)])
    return -n * k / 2 * np.log(2 * np.pi) + sum(la.slogdet(a)[1] for a in A) - n / 2 * la.slogdet(Sg)[1] - 0.5 * np.trace(la.solve(Sg, F.T @ F))


def info(W, lam, Sg):
    """information matrix of (lam, distinct elements of Sg by rows of the upper triangle)"""
    n, k = len(W), len(lam)
    B = [la.inv(np.eye(n) - l * W) for l in lam]
    Bd = block_diag(*B)
    Om = Bd @ np.kron(Sg, np.eye(n)) @ Bd.T
    P = la.inv(Om)
    d = []
    for i in range(k):
        U = np.zeros((k, k)); U[i, i] = 1
        G = np.kron(U, B[i] @ W)            # d Bd = Bd-block W Bd-block
        dB = G @ Bd
        d.append(dB @ np.kron(Sg, np.eye(n)) @ Bd.T + Bd @ np.kron(Sg, np.eye(n)) @ dB.T)
    for i in range(k):
        for j in range(i, k):
            U = np.zeros((k, k)); U[i, j] = U[j, i] = 1
            d.append(Bd @ np.kron(U, np.eye(n)) @ Bd.T)
    Q = [P @ a for a in d]
    return np.array([[0.5 * (a * c.T).sum() for c in Q] for a in Q])


def ml(T, w, W, y, X, yy, XX, ks, kw, R, tier):
    n, k = len(W), len(ks)
    flt = lambda v, l: v - l * (W @ v)
    for eps in (1e-7, 1e-11):
        t = "ml/eps%g" % eps
        m = quiet(spreg.SURerrorML, dict(y), dict(X), w, epsilon=eps, spat_diag=True, vm=True, **kw)
        T.call(); T.state(t)
        lam = [float(v) for v in np.ravel(m.lamsur)]
        b = lst(m.bSUR)
        # equation by equation
        tot = 0
        for r in range(k):
            f = lambda l: float(ref_ml.err_ll(yy[r], XX[r], W, l)[0])
            l0 = float(m.lamols[r, 0])
            tot += f(l0)
            h = 1e-3
            T.true("%s/lamols%d" % (t, r), f(l0) >= max(f(max(l0 - h, -1 + 1e-9)), f(min(l0 + h, 1 - 1e-9))) - 1e-6, "not a local maximum")
        T.close(t + "/errllik", m.errllik, tot, rtol=1e-7)
        # seemingly unrelated without spatial effects, iterated
        s = quiet(spreg.SUR, dict(y), dict(X), iter=True, **kw)
        T.close(t + "/llik", m.llik, -n / 2 * (k * (1 + np.log(2 * np.pi)) + la.slogdet(s.sig)[1]), rtol=1e-9)
        E = S.resid(yy, XX, b)
        T.close(t + "/bigE", m.bigE, E, rtol=1e-7, atol=1e-8)
        F = lambda l, e: S.cov(np.hstack([flt(e[:, r:r + 1], l[r]) for r in range(k)]))
        prof = lambda l, bb: sysll(W, yy, XX, bb, l, F(l, S.resid(yy, XX, bb)))
        here = prof(lam, b)
        T.close(t + "/surerrllik", m.surerrllik, here, rtol=1e-9)
        # no improvement from the coefficients given the rest, nor from the spatial parameters given the coefficients
        Sg = F(lam, E)
        ys, Xs = [flt(a, l) for a, l in zip(yy, lam)], [flt(a, l) for a, l in zip(XX, lam)]
        bs, Vs = S.gls(ys, Xs, Sg)
        T.true(t + "/b/optimal", prof(lam, bs) <= here + 20 * max(eps, 1e-7), "log-likelihood improves by %g" % (prof(lam, bs) - here))
        o = minimize(lambda l: -prof(l, b), lam, method="L-BFGS-B", bounds=[(-1 + 1e-9, 1 - 1e-9)] * k, options={"ftol": 1e-15, "gtol": 1e-9})
        T.true(t + "/lam/optimal", -o.fun <= here + 1e-4, "log-likelihood improves by %g" % (-o.fun - here))
        tol = 2e-2 if eps > 1e-8 else 2e-3
        T.close(t + "/sig", m.sig, Sg, rtol=tol, atol=tol * abs(Sg).max())
        T.close(t + "/varb", m.varb, S.gls(ys, Xs, m.sig)[1], rtol=tol, atol=tol * abs(Vs).max() / 10)
        T.close(t + "/b", np.vstack(b), np.vstack(bs), rtol=tol, atol=tol * np.sqrt(np.diag(Vs).max()))
        d = np.sqrt(np.diag(m.sig))
        T.close(t + "/corr", m.corr, m.sig / np.outer(d, d), rtol=1e-9, atol=1e-12)
        tb = S.table(b, np.asarray(m.varb))
        got = np.vstack(lst(m.sur_inf))
        T.close(t + "/inf", got, tb, rtol=1e-7, atol=1e-12)
        # tests
        M = k * (k - 1) // 2
        v = 2 * (m.surerrllik - m.errllik)
        T.close(t + "/lr", m.lrtest, (v, M, stats.chi2.sf(v, M)), rtol=1e-9, atol=1e-9)
        v = 2 * (m.surerrllik - m.llik)
        T.close(t + "/lrlambda", m.likrlambda, (v, k, stats.chi2.sf(v, k)), rtol=1e-9, atol=1e-9)
        V = la.inv(info(W, lam, np.asarray(m.sig)))
        T.close(t + "/vm", m.vm, V, rtol=1e-5, atol=1e-7 * abs(V).max())
        L = [np.array([[l]]) for l in lam]
        se, z, p = (np.ravel(a) for a in m.lamsetp)
        T.close(t + "/lamsetp", np.column_stack([se, z, p]), S.table(L, V[:k, :k]), rtol=1e-5, atol=1e-9)
        if k > 1:
            eqtest(T, t + "/lamtest", m.lamtest, S.wald(S.contrast(list(range(k)), k), L, V[:k, :k]))
        eqtest(T, t + "/joinlam", m.joinlam, S.wald(np.eye(k), L, V[:k, :k]))
        chows(T, t, m, m.bSUR, XX, [j + 1 for j in ks], [0] * k, R, 0)
    m = quiet(spreg.SURerrorML, dict(y), dict(X), w, nonspat_diag=False, **kw)
    T.call()
    if len(y) > 1:                          # variables by name from a data frame
        import p24
        none = {r: np.zeros((m.n, 0)) for r in y}
        df, ny, nx, _, _ = p24.frame(y, X, none, none)
        m2 = quiet(spreg.SURerrorML, ny, nx, w, df=df, nonspat_diag=False, **kw)
        T.close("ml/list", np.vstack([np.asarray(m2.bSUR[r]) for r in sorted(y)]), np.vstack([np.asarray(m.bSUR[r]) for r in sorted(y)]), rtol=1e-4, atol=1e-5)
        T.close("ml/list/lam", np.ravel(m2.lamols), np.ravel(m.lamols), rtol=1e-4, atol=1e-5)
        if not kw:
            T.eq("ml/list/names", (m2.name_bigy, m2.name_bigX), ({r: v for r, v in enumerate(ny)}, {r: ["Constant_%d" % (r + 1)] + v for r, v in enumerate(nx)}))
        g1 = quiet(spreg.SURerrorGM, dict(y), dict(X), w, **kw)
        g2 = quiet(spreg.SURerrorGM, ny, nx, w, df=df, nonspat_diag=False, **kw)
        T.call(3)
        T.close("gm/list", np.vstack([np.asarray(g2.bSUR[r]) for r in sorted(y)]), np.vstack([np.asarray(g1.bSUR[r]) for r in sorted(y)]), rtol=1e-4, atol=1e-5)
        T.close("gm/list/lam", np.ravel(g2.lamsur), np.ravel(g1.lamsur), rtol=1e-4, atol=1e-5)
    T.eq("ml/off", (m.lrtest, m.likrlambda, m.vm, m.lamsetp, m.lamtest, m.joinlam), (None,) * 6)
