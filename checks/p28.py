"""P28: probit attains its likelihood optimum; inverse information variance, fit measures, marginal effects and spatial tests by definition."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
from scipy.optimize import linprog
import spreg
import ref, regs, worlds, zcheck
from p26 import quiet

META = {"rule": "a state is (weights, design, one of ALL binary responses of the sample, optimiser, marginal effect choice, lagged regressor mask); separable responses, which have no optimum, are left out by a linear programme",
        "assumptions": ["full-rank regressors", "likelihood optimum exists (response not separable)"]}

WORLDS = {"quick": ["rook:3x3", "knn:2x4", "rookb:2x4"],
          "thorough": ["rook:3x4", "knn:3x4", "rook:3x3", "isl:3x3", "knn:2x4", "rookb:3x3", "ring:2x5", "queen:3x3", "odd:3x3", "rooks:3x3"]}
DESIGNS = {"quick": ["k1", "k2", "disc"], "thorough": ["k1", "k2", "disc", "dummy", "big"]}
CH = 32


def nof(wk):
    a, b = wk.split(":")[1].split("x")
    return int(a) * int(b)


def cases(tier):
    out = []
    for wk in WORLDS[tier]:
        n = nof(wk)
        step = 1
        for d in DESIGNS[tier]:
            for lo in range(0, 2 ** n, CH * step * 2):
                out.append(("all/%s/%s/%d" % (wk.replace(":", ""), d, lo), ("all", wk, d, lo, min(lo + CH * step * 2, 2 ** n), step)))
    for wk in ["rook:5x5", "knn:4x6", "isl:5x5", "knn:10x13"] + (["ring:5x5", "queen:5x5", "rookb:4x6"] if tier == "thorough" else []):
        out.append(("wide/%s" % wk.replace(":", ""), ("wide", wk, tier)))
    return out


def design(d, n, seed=3):
    g = np.random.default_rng(seed)
    if d == "k1":
        return g.normal(size=(n, 1))
    if d == "k2":
        return g.normal(size=(n, 2)) + 1
    if d == "disc":                                            # few distinct values, ties
        return np.array([[(i * 3) % 4 - 1.0] for i in range(n)])
    if d == "dummy":
        return np.hstack([np.array([[i % 2.0] for i in range(n)]), g.normal(size=(n, 1))])
    if d == "big":                                             # badly scaled
        return np.hstack([g.normal(size=(n, 1)) * 100 + 50])
    raise KeyError(d)


def attempt(T, key, f, *a, **k):
    T.call()
    try:
        return f(*a, **k)
    except Exception as e:
        T.fail(key + "/raises", "%s: %s" % (type(e).__name__, e))


def separable(y, X):
    q = (2 * y - 1) * X
    q = q / np.abs(q).max(0)
    r = linprog(-q.sum(0), A_ub=-q, b_ub=np.zeros(len(q)), bounds=[(-1, 1)] * X.shape[1])
    return r.status != 0 or -r.fun > 1e-7


def loglik(y, X, b):
    return float(stats.norm.logcdf((2 * y - 1) * (X @ b)).sum())


def derivs(y, X, b):
    q = 2 * y - 1
    xb = X @ b
    lam = q * np.exp(stats.norm.logpdf(xb) - stats.norm.logcdf(q * xb))
    return X.T @ lam, -(X * (lam * (lam + xb))).T @ X, lam


def optimum(y, X):
    b = np.zeros((X.shape[1], 1))
    for _ in range(200):
        s, H, _l = derivs(y, X, b)
        step = la.solve(-H, s)
        t, f = 1.0, loglik(y, X, b)
        while loglik(y, X, b + t * step) < f - 1e-12 and t > 1e-10:
            t /= 2
        b = b + t * step
        if float((s * step).sum()) < 1e-20:
            break
    return b


def flat(y, X, b):
    """optimum all but at infinity: the information matrix is numerically singular"""
    H = -derivs(y, X, b)[1]
    d = np.sqrt(np.diag(H))
    return la.cond(H / np.outer(d, d)) > 1e9


def moran(W, u, s):
    E = np.diag(s)
    num = (u @ W @ u).item()
    z = num / np.sqrt(np.trace(W @ E @ W @ E + W.T @ E @ W @ E))
    return z, 2 * stats.norm.sf(abs(z))


def verify(T, key, m, y, X, W, scalem, spat, bopt=None):
    """all quantities of one result, recomputed densely at the reported coefficients"""
    n, k = X.shape
    b = np.asarray(m.betas, float)
    if b.shape != (k, 1):
        return T.fail(key + "betas", "shape %s" % (b.shape,))
    s, H, lam = derivs(y, X, b)
    dec = (s.T @ la.solve(-H, s)).item()
    warned = m.warning is True or isinstance(m.warning, str)
    # newton stops once the previous decrement is below 1e-4; the scipy optimisers stop on parameter steps or raw gradients, so units matter for them
    lim = 5e-5 if "newton" in key else 5e-5 if abs(X).max() < 20 else 0.5
    T.true(key + "score", abs(dec) < lim or warned, "score not zero: decrement %.3g" % dec)
    if bopt is not None and not warned:
        gap = loglik(y, X, bopt) - loglik(y, X, b)
        T.true(key + "optimum", gap < lim, "log-likelihood %.6g below the optimum" % gap)
    rt = 1e-7
    vm = la.inv(-H)
    T.close(key + "vm", m.vm, vm, rt)
    T.close(key + "logl", m.logl, loglik(y, X, b), 1e-9)
    xb = X @ b
    P, ph = stats.norm.cdf(xb), stats.norm.pdf(xb)
    T.close(key + "xb", m.xb, xb, rt, shape=True)
    T.close(key + "predy", m.predy, P, rt, shape=True)
    T.close(key + "phiy", m.phiy, ph, rt, shape=True)
    T.close(key + "u_naive", m.u_naive, y - P, rt, atol=1e-12, shape=True)
    T.close(key + "u_gen", m.u_gen, lam, 1e-6, atol=1e-12, shape=True)
    T.close(key + "xmean", m.xmean, X.mean(0)[:, None], rt, shape=True)
    pb = (P > 0.5).astype(int)
    T.eq(key + "predybin", np.asarray(m.predybin).astype(int).tolist(), pb.tolist())
    tp, tn = int((pb * y).sum()), int(((1 - pb) * (1 - y)).sum())
    pos = int(y.sum())
    T.eq(key + "predtable", {a: int(v) for a, v in m.predtable.items()},
         dict(actpos=pos, actneg=n - pos, predpos=int(pb.sum()), predneg=n - int(pb.sum()), truepos=tp, trueneg=tn, falsepos=int(pb.sum()) - tp, falseneg=n - int(pb.sum()) - tn))
    tpr, tnr = 100.0 * tp / pos, 100.0 * tn / (n - pos)
    for a, v in dict(TPR=tpr, TNR=tnr, BA=(tpr + tnr) / 2, PREDPC=100.0 * (tp + tn) / n).items():
        T.close(key + "fit_" + a, m.fit[a], v, 1e-12)
    T.close(key + "predpc", m.predpc, 100.0 * (tp + tn) / n, 1e-12)
    p = pos / n
    L0 = n * (p * np.log(p) + (1 - p) * np.log(1 - p))
    ll = loglik(y, X, b)
    LR = 2 * (ll - L0)
    T.close(key + "L0", m.L0, L0, 1e-10)
    T.close(key + "LR", m.LR[0], LR, 1e-7, atol=1e-9)
    T.eq(key + "LR_df", int(m.LRtest["df"]), k - 1)
    T.close(key + "LR_p", [m.LR[1], m.LRtest["p-value"]], [stats.chi2.sf(LR, k - 1)] * 2, 1e-6, atol=1e-9)
    T.close(key + "LRtest", [m.LRtest["L0"], m.LRtest["likr"]], [L0, LR], 1e-7, atol=1e-9)
    T.close(key + "mcfadrho", m.mcfadrho, 1 - ll / L0, 1e-7, atol=1e-10)
    zcheck_ = b[:, 0] / np.sqrt(np.diag(vm))
    T.close(key + "z", [r[0] for r in m.z_stat], zcheck_, 1e-6, atol=1e-10)
    T.close(key + "zp", [r[1] for r in m.z_stat], 2 * stats.norm.sf(abs(zcheck_)), 1e-6, atol=1e-10)
    # marginal effects
    I = np.eye(k)
    xm = X.mean(0)[:, None]
    ib = (xm.T @ b).item()
    if scalem == "xmean":
        sc = stats.norm.pdf(ib)
        J = sc * (I - ib * b @ xm.T)
        coded = None
    else:
        sc = float(ph.mean())
        J = sc * I - b @ (ph * xb).T @ X / n
        Jc = sc * (I - ib * b @ xm.T)
        coded = (Jc @ vm @ Jc.T)[1:, 1:]
    V = (J @ vm @ J.T)[1:, 1:]
    T.close(key + "scale", np.ravel(m.scale), [sc], rt)
    sl = b[1:] * sc
    T.close(key + "slopes", m.slopes, sl, rt, shape=True)
    T.close(key + "slopes_vm", m.slopes_vm, V, 1e-6, alt=coded)
    if coded is not None:
        T.close(key + "phimean_delta", m.slopes_vm, V, 1e-6)
    se = np.sqrt(np.diag(np.asarray(m.slopes_vm, float)))
    T.close(key + "slopes_se", np.ravel(m.slopes_std_err), se, 1e-8)
    T.close(key + "slopes_z", m.slopes_z_stat, [(a / e, 2 * stats.norm.sf(abs(a / e))) for a, e in zip(sl[:, 0], se)], 1e-6, atol=1e-10)
    if spat:
        tests(T, key, (m.Pinkse_error, m.KP_error, m.PS_error), W, P[:, 0], stats.norm.sf(xb)[:, 0], ph[:, 0], (y - P)[:, 0], lam[:, 0])


def tests(T, key, got, W, P, Pc, ph, u, ug):
    n = len(P)
    pp = np.maximum(P * Pc, 1e-300)
    s2 = (ph ** 2 / pp).sum() / n
    tr = np.trace(W @ W + W @ W.T)
    pk = (ug @ W @ ug) ** 2 / (s2 ** 2 * tr)
    us = u / np.sqrt(pp)
    ps = (us @ W @ us) ** 2 / tr
    T.close(key + "Pinkse", got[0], [pk, stats.chi2.sf(pk, 1)], 1e-5, atol=1e-8)
    T.close(key + "KP", got[1], moran(W, u, pp), 1e-5, atol=1e-8)
    T.close(key + "PS", got[2], [ps, stats.chi2.sf(ps, 1)], 1e-5, atol=1e-8)


def run(case, T):
    if case[0] == "wide":
        return wide(case, T)
    _, wk, d, lo, hi, step = case
    w = worlds.make_w(wk)
    W = worlds.dense(w)
    n = len(W)
    x = design(d, n)
    X1 = np.hstack([np.ones((n, 1)), x])
    for c in range(lo, hi, step):
        y = np.array([[float(c >> i & 1)] for i in range(n)])
        if y.sum() in (0, n) or separable(y, X1):
            continue
        bopt = optimum(y, X1)
        if flat(y, X1, bopt):
            continue
        for i, op in enumerate(("newton", "bfgs", "ncg")):
            scalem = ("phimean", "xmean")[(c + i) % 2]
            m = attempt(T, "%d/%s" % (c, op), quiet, spreg.Probit, y, x, w=w, optim=op, scalem=scalem, spat_diag=True)
            if m is None:
                continue
            T.state((wk, d, c, op))
            verify(T, "%d/%s/%s/" % (c, op, scalem), m, y, X1, W, scalem, True, bopt)


def wide(case, T):
    _, wk, tier = case
    w = worlds.make_w(wk)
    W = worlds.dense(w)
    n = len(W)
    g = np.random.default_rng(5)
    large = n > 60                                             # five regressors, second-order lags
    for rep in range(12 if tier == "thorough" and not large else 1 if large else 4):
        x = g.normal(size=(n, 5 if large else 2 + rep % 2)) + rep % 3
        k = x.shape[1]
        y = ((x @ np.array([0.8, -0.7, 0.3, -0.5, -0.4])[:k])[:, None] + g.normal(size=(n, 1)) * 1.2 + 0.2 - rep % 3 * 0.1 > 0).astype(float)
        names = ["a", "b", "c", "d", "e"][:k]
        masks = [list(v) for v in itertools.product([True, False], repeat=k) if any(v)]
        lags = [(1, None), (1, "All")] + [(1, v) for v in masks] + [(2, "All"), (2, masks[1])]
        if large:
            lags = lags[:2] + [(1, masks[7]), (2, "All"), (2, masks[20])]
        for sl, mask in lags:
            kw = {} if mask is None else dict(slx_lags=sl, slx_vars=mask)
            cols = [] if mask is None else list(range(k)) if mask == "All" else [i for i in range(k) if mask[i]]
            X = np.hstack([np.ones((n, 1)), x] + [la.matrix_power(W, o + 1) @ x[:, cols] for o in range(sl) if cols])
            if separable(y, X) or la.cond(X) > 1e6:
                continue
            bopt = optimum(y, X)
            for op, scalem, spat in itertools.product(("newton", "bfgs", "ncg"), ("phimean", "xmean"), (True, False)):
                key = "%d/%s%s/%s/%s/%d/" % (rep, "" if sl == 1 else "W%d" % sl, "none" if mask is None else mask if mask == "All" else "".join("01"[v] for v in mask), op, scalem, spat)
                m = attempt(T, key + "fit", quiet, spreg.Probit, y, x, w=w, optim=op, scalem=scalem, spat_diag=spat, name_x=list(names), name_y="resp", predflag=True, vm=True, **kw)
                if m is None:
                    continue
                T.state((wk, key))
                verify(T, key, m, y, X, W, scalem, spat, bopt)
                T.eq(key + "names", list(m.name_x), ["CONSTANT"] + names + [("W_" if o == 0 else "W%d_" % (o + 1)) + names[i] for o in range(sl) for i in cols])
                T.eq(key + "title", m.title, "CLASSIC PROBIT ESTIMATOR" + ("" if mask is None else " WITH SPATIALLY LAGGED X (SLX)"))
                summary(T, key, m, spat)
        X = np.hstack([np.ones((n, 1)), x])
        if separable(y, X):
            continue
        ref_m = quiet(spreg.Probit, y, x, w=w, spat_diag=True)
        bopt = optimum(y, X)
        for j, start in enumerate(([0.0] * (k + 1), [float(v) for v in bopt[:, 0] + 0.3], [0.1, -0.2, 0.3, 0.1, 0.0, -0.1][:k + 1])):
            for op in ("newton", "bfgs", "ncg"):
                m = attempt(T, "%d/start%d/%s" % (rep, j, op), quiet, spreg.Probit, y, x, w=w, optim=op, bstart=start)
                if m is not None:
                    verify(T, "%d/start%d/%s/" % (rep, j, op), m, y, X, W, "phimean", False, bopt)
        T.raises("%d/bool" % rep, lambda: quiet(spreg.Probit, y > 0.5, x, w=w), ValueError)
        T.raises("%d/badstart" % rep, lambda: quiet(spreg.Probit, y, x, bstart=[0.0] * k), Exception)
        for nm, yy, xx in (("int", y.astype(int), x), ("u8", y.astype(np.uint8), x), ("flat", y[:, 0], x)):
            m = attempt(T, "%d/%s" % (rep, nm), quiet, spreg.Probit, yy, xx, w=w, spat_diag=True)
            if m is not None:
                verify(T, "%d/%s/" % (rep, nm), m, y, X, W, "phimean", True, bopt)
        # stopping rule: a bound of 1 iteration is reported as such
        m = quiet(spreg.Probit, y, x, maxiter=1)
        T.true("%d/maxiter" % rep, m.warning is True, "maxiter=1 reached but warning is %r" % (m.warning,))
        T.true("%d/nowarn" % rep, ref_m.warning is False, "converged but warning is %r" % (ref_m.warning,))
        # the base class, and the tests as a function of externally fitted quantities
        import spreg.probit as PB
        import spreg.diagnostics_probit as DP
        b = quiet(PB.BaseProbit, y, X)
        T.close("%d/base/betas" % rep, b.betas, ref_m.betas, 1e-9)
        T.close("%d/base/vm" % rep, b.vm, ref_m.vm, 1e-9)
        fv = (X @ ref_m.betas)
        P, ph = stats.norm.cdf(fv[:, 0]), stats.norm.pdf(fv[:, 0])
        u = y[:, 0] - P
        ug = u * ph / (P * stats.norm.sf(fv[:, 0]))
        for ww, nm in ((w, "W"),):
            got = attempt(T, "%d/ext/%s" % (rep, nm), quiet, DP.sp_tests, obj_list=[ww, fv[:, 0], u, ug])
            if got is not None:
                tests(T, "%d/ext/%s/" % (rep, nm), got, W, P, stats.norm.sf(fv[:, 0]), ph, u, ug)


def summary(T, key, m, spat):
    """numbers printed are the attributes"""
    s = m.summary
    T.true(key + "sum_tests", ("Kelejian-Prucha (error)" in s) == spat, "spatial tests printed: %s" % (not spat))
    for lab, v in (("True positive rate", "%.2f" % m.fit["TPR"]), ("True negative rate", "%.2f" % m.fit["TNR"]), ("Balanced accuracy", "%.2f" % m.fit["BA"])):
        row = [r for r in s.splitlines() if lab in r]
        T.true(key + "sum_" + lab, bool(row) and v in row[0], "%s: want %s in %s" % (lab, v, row))
    i = s.find("MARGINAL EFFECTS")
    rows = s[i:].splitlines()
    for j, nm in enumerate(m.name_x[1:]):
        r = [q.split() for q in rows if q.split()[:1] == [nm]]
        want = ["%.5f" % v for v in (float(m.slopes[j, 0]), float(np.ravel(m.slopes_std_err)[j]), *m.slopes_z_stat[j])]
        T.true(key + "sum_slope", bool(r) and r[0][1:5] == want, "%s: printed %s want %s" % (nm, r[:1], want))
    if spat:
        for lab, v in (("Kelejian-Prucha (error)", m.KP_error), ("Pinkse (error)", m.Pinkse_error), ("Pinkse-Slade (error)", m.PS_error)):
            r = [q for q in s.splitlines() if q.startswith(lab)]
            T.true(key + "sum_" + lab, bool(r) and r[0].split()[-3:] == ["1", "%.3f" % v[0], "%.4f" % v[1]], "%s printed %s want %s" % (lab, r[:1], v))
    T.true(key + "sum_confusion", "CONFUSION MATRIX" in s, "predflag=True but no prediction table printed")
