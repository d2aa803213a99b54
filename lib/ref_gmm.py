"""Reference model of the GMM spatial-error estimators (dense, exact moment minimisers).

The moment criteria are quartic polynomials in lambda (sigma2 concentrated out), so their global minimiser over
[-.99,.99] is computed exactly from the roots of the derivative instead of with an iterative optimiser.
"""
import numpy as np
import numpy.linalg as la
import ref
from ref import Box, sc

B = 0.99


def crit(G, g, V=None):
    """returns f(lam), list of local minimisers (sorted by value), concentrated over the linear columns (>=0 checked by caller)"""
    G = np.asarray(G, float); g = np.asarray(g, float).reshape(-1, 1)
    A = np.eye(len(g)) if V is None else la.cholesky(la.inv(V)).T
    G, g = A @ G, A @ g
    if G.shape[1] > 2:
        L = G[:, 2:]
        M = np.eye(len(g)) - L @ la.pinv(L)
        G, g = M @ G[:, :2], M @ g
    s = np.abs(g).max() + np.abs(G).max()
    G, g = G / s, g / s
    # r(l) = g - G0 l - G1 l^2
    c = [sc(g.T @ g), -2 * sc(g.T @ G[:, :1]), sc(G[:, :1].T @ G[:, :1]) - 2 * sc(g.T @ G[:, 1:2]), 2 * sc(G[:, :1].T @ G[:, 1:2]), sc(G[:, 1:2].T @ G[:, 1:2])]
    f = lambda l: c[0] + c[1] * l + c[2] * l ** 2 + c[3] * l ** 3 + c[4] * l ** 4
    rt = np.roots([4 * c[4], 3 * c[3], 2 * c[2], c[1]])
    cand = [float(r.real) for r in rt if abs(r.imag) < 1e-9 and abs(r.real) < B] + [-B, B]
    d2 = lambda l: 2 * c[2] + 6 * c[3] * l + 12 * c[4] * l * l
    d1 = lambda l: c[1] + 2 * c[2] * l + 3 * c[3] * l * l + 4 * c[4] * l ** 3
    loc = [l for l in cand if (abs(l) < B and d2(l) > 0) or (l == B and d1(l) < 0) or (l == -B and d1(l) > 0)]
    loc.sort(key=f)
    return f, loc


def argmin(G, g, V=None):
    f, loc = crit(G, g, V)
    return loc[0]


def filt(W, l, a):
    return a - l * (W @ a)


def moments_kp(W, u):
    n = len(u)
    wu, wwu = W @ u, W @ (W @ u)
    G = np.array([[2 * sc(u.T @ wu), -sc(wu.T @ wu), n],
                  [2 * sc(wu.T @ wwu), -sc(wwu.T @ wwu), np.trace(W.T @ W)],
                  [sc(u.T @ wwu) + sc(wu.T @ wu), -sc(wu.T @ wwu), 0.0]]) / n
    g = np.array([[sc(u.T @ u)], [sc(wu.T @ wu)], [sc(u.T @ wu)]]) / n
    return G, g


def mats(W, kind):
    n = W.shape[0]
    WW = W.T @ W
    if kind == "het":
        A1 = WW - np.diag(np.diag(WW))
    else:
        t = np.trace(WW) / n
        A1 = WW - t * np.eye(n)
        if kind == "hom_sc":
            A1 = A1 / (1 + t ** 2)
    return A1, (W + W.T) / 2


def moments2(A1, A2, W, u):
    """E u_s'A u_s = 0 for A1, A2 (symmetric), u_s = u - l W u"""
    n = len(u)
    wu = W @ u
    G = np.array([[2 * sc(u.T @ A @ wu), -sc(wu.T @ A @ wu)] for A in (A1, A2)]) / n
    g = np.array([[sc(u.T @ A @ u)] for A in (A1, A2)]) / n
    return G, g


def psi_het(A1, A2, S):
    n = len(S)
    As = [2 * A1, 2 * A2]
    return np.array([[np.trace(a @ S @ b @ S) for b in As] for a in As]) / (2.0 * n)


class Data(object):
    """regressors X, endogenous E (or None), instruments H"""

    def __init__(self, y, X, W, E=None, H=None):
        self.y, self.X, self.W, self.E, self.H = y, X, W, E, H
        self.Z = X if E is None else np.hstack([X, E])
        self.n, self.k = self.Z.shape

    def fs(self, lam):
        """filtered regressors used for estimation"""
        return filt(self.W, lam, self.Z)

    def fit(self, lam, H=None):
        ys, Zs = filt(self.W, lam, self.y), self.fs(lam)
        if self.E is None:
            return la.lstsq(Zs, ys, rcond=None)[0]
        H = self.H
        Zh = H @ la.solve(H.T @ H, H.T @ Zs)
        return la.solve(Zh.T @ Zs, Zh.T @ ys)

    def P(self, lam, loop=False):
        """n (H'H)^-1 H'Zs (Zs'H (H'H)^-1 H'Zs)^-1"""
        H, Zs = self.H, (self.fs(lam) if loop else filt(self.W, lam, self.Z))
        a = la.solve(H.T @ H, H.T @ Zs)
        return self.n * a @ la.inv(Zs.T @ H @ a)


class DataSplit(Data):
    """Joint regimes design: columns are filtered first and then split by regime for estimation (see known findings of P08)"""

    def __init__(self, y, Xc, W, split_x, Ec=None, split_e=None, H=None):
        self.Xc, self.Ec, self.split_x, self.split_e = Xc, Ec, split_x, split_e
        Data.__init__(self, y, split_x(Xc), W, None if Ec is None else split_e(Ec), H)

    def fs(self, lam):
        Xs = self.split_x(filt(self.W, lam, self.Xc))
        return Xs if self.Ec is None else np.hstack([Xs, self.split_e(filt(self.W, lam, self.Ec))])


# ------------------------------------------------------------------ original moments
def kp98(d):
    b0 = d.fit(0.0)
    G, g = moments_kp(d.W, d.y - d.Z @ b0)
    f, loc = crit(G, g)
    return Box(lam_used=loc[0], lam=loc[0], crits=[(f, loc)])


def kp98_vm(d, b, lam):
    """variance at the reported (b, lam)"""
    us = filt(d.W, lam, d.y - d.Z @ b)
    Zs = d.fs(lam)
    s2 = sc(us.T @ us) / d.n
    if isinstance(d, DataSplit):
        ys = filt(d.W, lam, d.y) - Zs @ b
        s2 = sc(ys.T @ ys) / d.n
    if d.E is None:
        return s2 * la.inv(Zs.T @ Zs), s2
    Zh = d.H @ la.solve(d.H.T @ d.H, d.H.T @ Zs)
    return s2 * la.inv(Zh.T @ Zs), s2


# ------------------------------------------------------------------ heteroskedastic
def psi_het_full(d, A1, A2, u, lam, Pm, Zs, T=None):
    us = filt(d.W, lam, u)
    S = np.diag((us ** 2).ravel())
    psi = psi_het(A1, A2, S)
    a = None
    if d.E is not None:
        HP = d.H @ Pm
        a = np.hstack([HP @ (-2.0 / d.n * Zs.T @ A @ us) for A in (A1, A2)])
        if T is not None:
            a = T @ a
        psi = psi + a.T @ S @ a / d.n
    return psi, a, S


def het(d, max_iter=1, eps=1e-5, step1c=False, clip=False, first=False):
    A1, A2 = mats(d.W, "het")
    I = np.eye(d.n)

    def cl(b):
        if clip and abs(b[-1, 0]) > 0.9:
            b = b.copy(); b[-1, 0] = 0.9 * np.sign(b[-1, 0])
        return b
    crits = []
    u = d.y - d.Z @ cl(d.fit(0.0))
    G, g = moments2(A1, A2, d.W, u)
    f, loc = crit(G, g)
    crits.append((f, loc))
    lam = lam1 = loc[0]
    if step1c:
        T = la.inv(I - lam * d.W.T)
        V = psi_het_full(d, A1, A2, u, lam, d.P(0.0) if d.E is not None else None, filt(d.W, lam, d.Z), T)[0]
        f, loc = crit(G, g, V)
        crits.append((f, loc))
        lam = loc[0]
    it, e = 0, 1.0
    while it < max_iter and e > eps:
        used = lam
        lf = lam1 if first else lam
        used = lf
        b = cl(d.fit(lf))
        u = d.y - d.Z @ b
        V = psi_het_full(d, A1, A2, u, lam, d.P(lf, True) if d.E is not None else None, d.fs(lf))[0]
        G, g = moments2(A1, A2, d.W, u)
        f, loc = crit(G, g, V)
        crits.append((f, loc))
        e, lam = abs(loc[0] - lam), loc[0]
        it += 1
    return Box(lam_used=used, lam=lam, iteration=it, crits=crits, last=(G, g), cl=cl, A1=A1, A2=A2)


def het_last_crit(d, b, used, lam_v=None):
    """criterion of the last step given reported coefficients and the lambda used for them"""
    A1, A2 = mats(d.W, "het")
    u = d.y - d.Z @ b
    V = psi_het_full(d, A1, A2, u, used if lam_v is None else lam_v, d.P(used, True) if d.E is not None else None, d.fs(used))[0]
    G, g = moments2(A1, A2, d.W, u)
    return crit(G, g, V)


def het_vm(d, b, lam):
    A1, A2 = mats(d.W, "het")
    u = d.y - d.Z @ b
    G, g = moments2(A1, A2, d.W, u)
    J = G @ np.array([[1.0], [2 * lam]])
    n = d.n
    Zs = filt(d.W, lam, d.Z)
    if d.E is None:
        psi, a, S = psi_het_full(d, A1, A2, u, lam, None, Zs)
        ZZ = la.inv(Zs.T @ Zs)
        o11 = ZZ @ (Zs.T @ S @ Zs) @ ZZ
        o22 = la.inv(J.T @ la.inv(psi) @ J) / n
        return np.block([[o11, np.zeros((d.k, 1))], [np.zeros((1, d.k)), o22]])
    Pm = d.P(lam)
    psi, a, S = psi_het_full(d, A1, A2, u, lam, Pm, Zs)
    Pdd = d.H.T @ S @ d.H / n
    Pdl = d.H.T @ S @ a / n
    pi = la.inv(psi)
    w = la.inv(J.T @ pi @ J) @ J.T @ pi
    return np.block([[Pm.T @ Pdd @ Pm, Pm.T @ Pdl @ w.T], [w @ Pdl.T @ Pm, w @ psi @ w.T]]) / n


# ------------------------------------------------------------------ homoskedastic
def psi_hom(d, A1, A2, u, lam, endog, loop=False):
    n = d.n
    us = filt(d.W, lam, u)
    s2 = sc(us.T @ us) / n
    m3, m4 = float((us ** 3).sum()) / n, float((us ** 4).sum()) / n
    v = [np.diag(A).reshape(-1, 1) for A in (A1, A2)]
    A = (A1, A2)
    a = None
    if endog:
        Zs = d.fs(lam) if loop else filt(d.W, lam, d.Z)
        HP = d.H @ d.P(lam, loop)
        a = [HP @ (-2.0 / n * Zs.T @ M @ us) for M in A]
    psi = np.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            p = 2 * s2 ** 2 * np.trace(A[i] @ A[j]) + (m4 - 3 * s2 ** 2) * sc(v[i].T @ v[j])
            if endog:
                p += s2 * sc(a[i].T @ a[j]) + m3 * (sc(a[i].T @ v[j]) + sc(a[j].T @ v[i]))
            psi[i, j] = p / n
    return psi, a, s2, m3, v


def hom(d, max_iter=1, eps=1e-5, A1="hom_sc"):
    A1, A2 = mats(d.W, A1)
    crits = []
    u = d.y - d.Z @ d.fit(0.0)
    f, loc = crit(*moments2(A1, A2, d.W, u))
    crits.append((f, loc))
    lam = loc[0]
    it, e = 0, 1.0
    while it < max_iter and e > eps:
        used = lam
        u = d.y - d.Z @ d.fit(lam)
        G, g = moments2(A1, A2, d.W, u)
        f, loc = crit(G, g, psi_hom(d, A1, A2, u, lam, d.E is not None, True)[0])
        crits.append((f, loc))
        e, lam = abs(loc[0] - lam), loc[0]
        it += 1
    return Box(lam_used=used, lam=lam, iteration=it, crits=crits)


def hom_last_crit(d, b, used, A1="hom_sc"):
    A1, A2 = mats(d.W, A1)
    u = d.y - d.Z @ b
    G, g = moments2(A1, A2, d.W, u)
    return crit(G, g, psi_hom(d, A1, A2, u, used, d.E is not None, True)[0])


def hom_vm(d, b, lam, A1="hom_sc"):
    A1, A2 = mats(d.W, A1)
    n = d.n
    u = d.y - d.Z @ b
    G, g = moments2(A1, A2, d.W, u)
    J = G @ np.array([[1.0], [2 * lam]])
    Zs = filt(d.W, lam, d.Z)
    if d.E is None:
        psi, _, s2, m3, v = psi_hom(d, A1, A2, u, lam, False)
        pi = la.inv(psi)
        oLL = la.inv(J.T @ pi @ J) / n
        oDD = s2 * la.inv(Zs.T @ Zs)
        Pdl = m3 * d.X.T @ np.hstack([v[0], v[1]]) / n
        p = la.inv(Zs.T @ Zs / n)
        # instruments of the exogenous model as implemented: unfiltered regressors
        oDL = p.T @ Pdl @ pi @ J @ oLL
    else:
        psi, a, s2, m3, v = psi_hom(d, A1, A2, u, lam, True)
        pi = la.inv(psi)
        oLL = la.inv(J.T @ pi @ J) / n
        Zh = d.H @ la.solve(d.H.T @ d.H, d.H.T @ Zs)
        oDD = s2 * la.inv(Zh.T @ Zs)
        Pdl = (m3 * d.H.T @ np.hstack([v[0], v[1]]) + s2 * d.H.T @ np.hstack(a)) / n
        oDL = d.P(lam).T @ Pdl @ pi @ J @ oLL
    return np.block([[oDD, oDL], [oDL.T, oLL]]), s2


def used_lambda(d, b, lam0, clip=False):
    """lambda for which the filtered (2S)LS solution is b (Gauss-Newton on the exact map, several starts)"""
    wts = 1.0 / np.maximum(np.abs(b), 1e-3)

    def res(l):
        b0 = d.fit(l)
        r = (b - b0) * wts
        if clip and abs(b0[-1, 0]) > 0.9:
            r = r[:-1]
        return r
    best = None
    for s in [lam0] + [x for x in (0.0, -0.9, -0.6, -0.3, 0.3, 0.6, 0.9)]:
        l = s
        try:
            for _ in range(30):
                r = res(l)
                h = 1e-6
                rp, rm = res(l + h), res(l - h)
                if rp.shape != r.shape or rm.shape != r.shape:
                    break
                dr = (rp - rm) / (2 * h)
                den = sc(dr.T @ dr)
                if den < 1e-18:
                    break
                step = -sc(dr.T @ r) / den
                step = min(max(step, -0.3), 0.3)
                l = min(max(l + step, -0.99), 0.99)
                if abs(step) < 1e-13:
                    break
            v = float(np.abs(res(l)).max())
        except la.LinAlgError:
            continue
        if best is None or v < best[0]:
            best = (v, l)
        if best[0] < 1e-8:
            break
    return best[1]
