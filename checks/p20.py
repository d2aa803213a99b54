"""P20: spatial diagnostics by definition, for every subset of the test list."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
import ref, worlds
from p03 import ak

META = {"rule": "a state is one (world, subset/order of requested tests) or one (world, estimator with spatial diagnostics) combination"}
TESTS = ["lme", "lml", "rlme", "rlml", "sarma", "lmwx", "lmspdurbin", "rlmwx", "rlmdurlag", "lmslxerr"]
WS = ["rook:5x5", "knn:6x5", "odd:5x5", "isl:5x6", "rookb:4x5", "strid:5x6"]


def cases(tier):
    ws = WS + (["queen:6x6", "ring:3x5", "rooks:6x6"] if tier == "thorough" else [])
    out = []
    for wk in ws:
        for k in (1, 2, 3, 5):
            out.append(("subsets/%s/k%d" % (wk, k), ("subsets", wk, k)))
            for s in range(3 if tier == "quick" else 10):
                out.append(("model/%s/k%d/s%d" % (wk, k, s), ("model", wk, k, s)))
        for k, e in ((1, 1), (2, 1), (2, 2), (4, 3)):
            out.append(("iv/%s/k%de%d" % (wk, k, e), ("iv", wk, k, e)))
    for wk in ("rook:5x5", "knn:6x6", "odd:5x6"):
        for k in (1, 2, 3, 5):
            out.append(("comfac/%s/k%d" % (wk, k), ("comfac", wk, k)))
    # all binary responses on one small lattice
    for first in range(4):
        out.append(("ally/%d" % first, ("ally", first, 9 if tier == "quick" else 12)))
    return out


def cmp_tests(T, key, lm, want, names):
    for t in names:
        got = getattr(lm, t)
        T.close(key + t, got[0], want[t][0], 1e-6, atol=1e-8)
        T.close(key + t + "_p", got[1], want[t][1], 1e-5, atol=1e-8)


def run(case, T):
    import spreg
    kind = case[0]
    if kind == "subsets":
        _, wk, k = case
        wd = worlds.World(wk, k=k, e=0, m=0, rho=0.2 if not wk.startswith("rookb") else 0.05)
        want = ref.lm_all(ref.ols(wd.y, wd.X), wd.W)
        m = spreg.OLS(wd.y, wd.x)
        for bits in itertools.product((0, 1), repeat=10):
            sub = [t for t, b in zip(TESTS, bits) if b]
            if not sub:
                continue
            for order in (sub, sub[::-1]) if len(sub) > 1 else (sub,):
                lm = spreg.LMtests(m, wd.w, tests=list(order))
                T.call(); T.state(case, tuple(order))
                cmp_tests(T, "", lm, want, sub)
        lm = spreg.LMtests(m, wd.w)
        cmp_tests(T, "all/", lm, want, TESTS)
        T.close("id-sarma", lm.sarma[0], lm.rlml[0] + lm.lme[0], 1e-8)
        T.close("id-durbin1", lm.lmspdurbin[0], lm.lmwx[0] + lm.rlmdurlag[0], 1e-8)
        T.close("id-durbin2", lm.lmspdurbin[0], lm.lml[0] + lm.rlmwx[0], 1e-8)
    elif kind == "model":
        _, wk, k, s = case
        wd = worlds.World(wk, k=k, e=0, m=0, seed=s, rho=0.3 if not wk.startswith("rookb") else 0.05)
        for slx, moran, nsd, s2 in itertools.product((0, 1), (True, False), (True, False), (True, False)):
            m = spreg.OLS(wd.y, wd.x, w=wd.w, spat_diag=True, moran=moran, slx_lags=slx, nonspat_diag=nsd, sig2n_k=s2)
            T.call(); T.state(case, slx, moran, nsd, s2)
            X = np.hstack([wd.X] + ([wd.W @ wd.x] if slx else []))
            o = ref.ols(wd.y, X, s2)
            want = ref.lm_all(o, wd.W) if not slx else lm_basic(o, wd.W)
            mp = {"lm_error": "lme", "lm_lag": "lml", "rlm_error": "rlme", "rlm_lag": "rlml", "lm_sarma": "sarma"}
            if not slx:
                mp.update(lm_wx="lmwx", lm_spdurbin="lmspdurbin", rlm_wx="rlmwx", rlm_durlag="rlmdurlag", lm_slxerr="lmslxerr")
            for a, t in mp.items():
                got = getattr(m, a)
                T.close("m/" + a, got[0], want[t][0], 1e-6, atol=1e-8)
                T.close("m/" + a + "_p", got[1], want[t][1], 1e-5, atol=1e-8)
            I, EI, V = ref.moran_res(o, wd.W)
            if moran:
                z = (I - EI) / np.sqrt(V)
                T.close("m/moran", m.moran_res[0], I, 1e-7, atol=1e-10)
                T.close("m/moran_z", m.moran_res[1], z, 1e-6, atol=1e-8)
                T.close("m/moran_p", m.moran_res[2], 2 * stats.norm.sf(abs(z)), 1e-6, atol=1e-8)
            mr = spreg.MoranRes(m, wd.w, z=True)
            T.close("c/I", mr.I, I, 1e-7, atol=1e-10)
            T.close("c/eI", mr.eI, EI, 1e-7, atol=1e-10)
            T.close("c/vI", mr.vI, V, 1e-6)
            T.close("c/zI", mr.zI, (I - EI) / np.sqrt(V), 1e-6, atol=1e-8)
            T.close("c/p", mr.p_norm, 2 * stats.norm.sf(abs((I - EI) / np.sqrt(V))), 1e-6, atol=1e-8)
    elif kind == "ally":
        _, first, n = case
        wd = worlds.World("rook:3x%d" % (n // 3), k=1, e=0, m=0)
        X, W = wd.X, wd.W
        for rest in itertools.product((0.0, 1.0), repeat=n - 2):
            y = np.array((float(first // 2), float(first % 2)) + rest).reshape(-1, 1)
            o = ref.ols(y, X)
            if o.utu < 1e-8:
                continue
            m = spreg.OLS(y, wd.x, nonspat_diag=False)
            lm = spreg.LMtests(m, wd.w, tests=["lme", "lml", "rlme", "rlml", "sarma"])
            T.call(2); T.state(tuple(y.ravel()))
            cmp_tests(T, "", lm, lm_basic(o, W), ["lme", "lml", "rlme", "rlml", "sarma"])
            I, EI, V = ref.moran_res(o, W)
            mr = spreg.MoranRes(m, wd.w, z=True)
            T.close("I", mr.I, I, 1e-7, atol=1e-9)
            T.close("z", mr.zI, (I - EI) / np.sqrt(V), 1e-6, atol=1e-7)
    elif kind == "iv":
        _, wk, k, e = case
        wd = worlds.World(wk, k=k, e=e, m=e + 1, rho=0.2 if not wk.startswith("rookb") else 0.05)
        r = ref.tsls(wd.y, wd.X, wd.yend, wd.q)
        m = spreg.TSLS(wd.y, wd.x, wd.yend, wd.q, w=wd.w, spat_diag=True)
        T.call(); T.state(case)
        ak(T, "tsls/", m.ak_test, r, wd.W)
        g = spreg.AKtest(m, wd.w, case="gen")
        mi, _ = ak(T, "gen/", (g.ak, g.p), r, wd.W)
        T.close("gen/mi", g.mi, mi, 1e-7, atol=1e-10)
        a = spreg.AKtest(m, wd.w, case="nosp")
        de = ref.sc(r.u.T @ wd.W @ r.u) / r.sig2n
        v = de ** 2 / np.trace((wd.W.T + wd.W) @ wd.W)
        T.close("nosp/ak", a.ak, v, 1e-7, atol=1e-9)
        T.close("nosp/p", a.p, stats.chi2.sf(v, 1), 1e-6, atol=1e-9)
        T.close("nosp/mi", a.mi, mi, 1e-7, atol=1e-10)
        d = spreg.AKtest(m, wd.w)
        T.close("default", d.ak, v, 1e-7, atol=1e-9)
        if not wk.startswith("rookb"):
            m = spreg.GM_Lag(wd.y, wd.x, yend=wd.yend, q=wd.q, w=wd.w)
            T.call()
            r = ref.tsls(wd.y, wd.X, np.asarray(m.yend), H=np.asarray(m.h))
            ak(T, "lag/", m.ak_test, r, wd.W)
    elif kind == "comfac":
        _, wk, k = case
        wd = worlds.World(wk, k=k, e=0, m=0, rho=0.3)
        for est in ("gm", "ml"):
            for seed in range(2):
                if est == "gm":
                    m = spreg.GM_Lag(wd.y, wd.x, w=wd.w, slx_lags=1, w_lags=2, spat_diag=True)
                else:
                    m = spreg.ML_Lag(wd.y, wd.x, w=wd.w, slx_lags=1, spat_diag=True)
            T.call(); T.state(case, est)
            b = np.asarray(m.betas); vm = np.asarray(m.vm)
            rho = b[-1, 0]
            be, ga = b[1:1 + k], b[1 + k:1 + 2 * k]
            idx = list(range(1, 1 + 2 * k)) + [2 * k + 1]
            V = vm[np.ix_(idx, idx)]
            g = rho * be + ga
            G = np.hstack([rho * np.eye(k), np.eye(k), be])
            v = ref.sc(g.T @ la.inv(G @ V @ G.T) @ g)
            T.close(est + "/cfh", m.cfh_test[0], v, 1e-6)
            T.close(est + "/cfh_p", m.cfh_test[1], stats.chi2.sf(v, k), 1e-6, atol=1e-9)


def lm_basic(o, W):
    p = ref.lm_parts(o, W)
    c1 = lambda s: (s, stats.chi2.sf(s, 1))
    s = (p.dl - p.de) ** 2 / (p.nJ - p.T) + p.de ** 2 / p.T
    return {"lme": c1(p.de ** 2 / p.T), "lml": c1(p.dl ** 2 / p.nJ),
            "rlme": c1((p.de - p.T / p.nJ * p.dl) ** 2 / (p.T * (1 - p.T / p.nJ))),
            "rlml": c1((p.dl - p.de) ** 2 / (p.nJ - p.T)), "sarma": (s, stats.chi2.sf(s, 2))}
