"""P02: White / HAC sandwich variances for OLS, 2SLS and spatial 2SLS."""
import itertools
import numpy as np
from libpysal import weights
import ref, worlds, zcheck
from p01 import masks

META = {"rule": "a state is one (estimator, robust option, kernel, df option, slx order/mask, world) combination"}


def kernels(wd, tier):
    out = {"tri4": wd.kernel(4, "triangular"), "quad6": wd.kernel(6, "quadratic")}
    if tier == "thorough":
        out["tri9"] = wd.kernel(9, "triangular")
        out["quart5"] = wd.kernel(5, "quartic")
    # quartic / quadratic kernels do not have unit diagonals unless asked
    return out


def cases(tier):
    out = []
    ws = ["rook:5x5", "knn:5x5", "odd:6x5"] + (["strid:6x6", "isl:6x6", "rookb:5x6"] if tier == "thorough" else [])
    for wk in ws:
        for est in ("ols", "tsls", "lag"):
            for k, e in itertools.product((1, 2, 3), (0, 1, 2)):
                if (est == "ols") != (e == 0) and est != "lag":
                    continue
                for lags in (0, 1):
                    out.append(("%s/%s/k%de%d/lag%d" % (est, wk, k, e, lags), (est, wk, k, e, lags, tier)))
    for est, k, e in (("ols", 6, 0), ("tsls", 4, 3), ("lag", 5, 0), ("lag", 3, 3)):
        out.append(("%s/rook:7x7/k%de%d/lag1" % (est, k, e), (est, "rook:7x7", k, e, 1, tier)))
    return out


def run(case, T):
    import spreg
    est, wk, k, e, lags, tier = case
    wd = worlds.World(wk, k=k, e=e, m=max(e, 1) + 1 if e else 0, seed=k, rho=0.3 if est == "lag" else 0)
    gks = kernels(wd, tier)
    for mask in (masks(k) if lags and est != "lag" else ["All"]):
        mk = np.array([True] * k if mask == "All" else mask)
        X = np.hstack([wd.X] + ([ref.wlags(wd.W, wd.x[:, mk], lags)] if lags else []))
        base = None
        for s2 in (True, False):
            for rob in [None, "white"] + ["hac:" + g for g in gks]:
                kw = dict(w=wd.w, sig2n_k=s2, slx_lags=lags, slx_vars=mask, robust=rob)
                K = None
                if rob and rob.startswith("hac"):
                    g = gks[rob[4:]]
                    kw.update(robust="hac", gwk=g)
                    K = worlds.dense(g)
                if est == "ols":
                    m = spreg.OLS(wd.y, wd.x, **kw)
                    r = ref.ols(wd.y, X, s2)
                    vm = r.vm if not rob else (ref.white_ols(r, s2) if rob == "white" else ref.hac_ols(r, K))
                    df = r.n - r.k
                elif est == "tsls":
                    m = spreg.TSLS(wd.y, wd.x, wd.yend, wd.q, **kw)
                    r = ref.tsls(wd.y, X, wd.yend, wd.q, sig2n_k=s2)
                    vm = r.vm if not rob else (ref.white_tsls(r, s2) if rob == "white" else ref.hac_tsls(r, K))
                    df = None
                else:
                    if e:
                        m = spreg.GM_Lag(wd.y, wd.x, yend=wd.yend, q=wd.q, **kw)
                    else:
                        m = spreg.GM_Lag(wd.y, wd.x, **kw)
                    # the estimator's own instruments: exactness of those is P04
                    r = ref.tsls(wd.y, X, np.asarray(m.yend), H=np.asarray(m.h), sig2n_k=s2)
                    vm = r.vm if not rob else (ref.white_tsls(r, s2) if rob == "white" else ref.hac_tsls(r, K))
                    df = None
                T.call(); T.state(case, str(mask), s2, rob)
                key = "%s/s2=%s/%s/" % ("".join("01"[int(b)] for b in mk), s2, rob)
                vmr = 1e-6
                zcheck.inference(T, key, m, r.b, vm, None, df, rtol=1e-6, vm_rtol=vmr)
                T.close(key + "u", m.u, r.u, 1e-7)
                if base is None:
                    base = m.betas
                T.close(key + "betas-indep", m.betas, base, 1e-12)
                T.eq(key + "robust-label", m.robust, {None: "unadjusted", "white": "white"}.get(rob, "hac"))
