"""Registry of every public estimator and procedure: fresh, complete, named inputs for each configuration.

make(key) -> (callable, kwargs); every call builds the inputs anew from the deterministic worlds.
`kinds` of arguments: see ROLE.
"""
import numpy as np
import pandas as pd
import worlds, regs

A, B, T = 6, 8, 4           # lattice, periods
N = A * B
WK = "queen:6x8"
BETA = [1.5, 1.2, -0.9, 0.5]


def world(seed=11, wk=WK, **k):
    k = dict(dict(k=2, e=1, m=2, rho=0.3, lam=0.2), **k)
    return worlds.World(wk, seed=seed, **k)


def base(wk=WK, seed=11, **k):
    wd = world(seed, wk, **k)
    d = dict(y=wd.y, x=wd.x, yend=wd.yend, q=wd.q, w=wd.w, gwk=wd.kernel(), regimes=regs.regimes("cols", wd.a, wd.b))
    d["coords"] = worlds._coords(wd.a, wd.b) * 10
    D = np.sqrt(((d["coords"][:, None, :] - d["coords"][None, :, :]) ** 2).sum(2))
    np.fill_diagonal(D, np.inf)
    nn = np.argsort(D, axis=1)[:, :6]
    dd = np.take_along_axis(D, nn, 1)
    dd = dd / dd[:, [-1]]
    d["yns"] = 1.0 + wd.x @ np.array([[1.2], [-0.9], [0.5]])[: wd.x.shape[1]] + sum((np.exp(-a * dd) * wd.x[nn, j]).sum(1)[:, None] for j, a in enumerate([1.5, 2.5][: wd.x.shape[1]]))
    d["yns"] = d["yns"] + 0.2 * np.random.RandomState(seed).randn(wd.n, 1)
    d["ybin"] = (wd.y > np.median(wd.y)).astype(float)
    return d


NAMES = {"y": ("name_y", "resp"), "x": ("name_x", ["inc", "hov"]), "yend": ("name_yend", ["price"]), "q": ("name_q", ["za", "zb"]),
         "w": ("name_w", "wmat"), "gwk": ("name_gwk", "kern"), "regimes": ("name_regimes", "zone")}

# key -> (function name, data arguments, options)
CONF = {}


def add(key, fn, args, **opt):
    CONF[key] = (fn, args.split(), opt)


add("OLS", "OLS", "y x w", spat_diag=True, moran=True, white_test=True, vif=True)
add("OLS/slx", "OLS", "y x w", slx_lags=1, slx_vars=[True, False])
add("OLS/hac", "OLS", "y x gwk", robust="hac")
add("OLS/white", "OLS", "y x", robust="white")
add("TSLS", "TSLS", "y x yend q w", spat_diag=True)
add("TSLS/ogmm", "TSLS", "y x yend q", robust="ogmm")
add("TSLS/slx", "TSLS", "y x yend q w", slx_lags=2)
add("GM_Lag", "GM_Lag", "y x w", spat_diag=True, spat_impacts="all")
add("GM_Lag/yend", "GM_Lag", "y x yend q w", w_lags=2, robust="white")
add("GM_Lag/slx", "GM_Lag", "y x w", slx_lags=1, spat_diag=True, spat_impacts="full")
add("GM_Lag/hac", "GM_Lag", "y x w gwk", robust="hac")
add("GM_Error", "GM_Error", "y x w")
add("GM_Endog_Error", "GM_Endog_Error", "y x yend q w", slx_lags=1)
add("GM_Combo", "GM_Combo", "y x w")
add("GM_Combo/yend", "GM_Combo", "y x yend q w", slx_lags=1)
add("GM_Error_Het", "GM_Error_Het", "y x w", step1c=True)
add("GM_Endog_Error_Het", "GM_Endog_Error_Het", "y x yend q w", max_iter=2)
add("GM_Combo_Het", "GM_Combo_Het", "y x w", step1c=True, slx_lags=1)
add("GM_Error_Hom", "GM_Error_Hom", "y x w", A1="het", max_iter=2)
add("GM_Endog_Error_Hom", "GM_Endog_Error_Hom", "y x yend q w", A1="hom_sc")
add("GM_Combo_Hom", "GM_Combo_Hom", "y x w", A1="hom")
for e in ("het", "hom", "kp98"):
    add("GMM_Error/" + e, "GMM_Error", "y x w", estimator=e)
add("GMM_Error/combo", "GMM_Error", "y x yend q w", estimator="het", add_wy=True)
add("ML_Lag", "ML_Lag", "y x w", method="full", spat_impacts="all", spat_diag=True, slx_lags=1)
add("ML_Lag/lu", "ML_Lag", "y x w", method="LU")
add("ML_Lag/ord", "ML_Lag", "y x w", method="ord")
add("ML_Error", "ML_Error", "y x w", method="full")
add("ML_Error/ord", "ML_Error", "y x w", method="ord")
add("ML_Error/lu", "ML_Error", "y x w", method="LU", slx_lags=1)
add("Probit", "Probit", "ybin x w", spat_diag=True)
add("Probit/slx", "Probit", "ybin x w", slx_lags=1, scalem="xmean", optim="bfgs")
add("NSLX", "NSLX", "yns x coords", params=[(6, np.inf, "exponential")], options=None)
# regimes, pooled and separate
R = "regimes "
for fam, (rc, pc, nend, lag, sep) in regs.FAM.items():
    a = "y x " + R + ("yend q " if nend else "") + ("w" if fam in regs.NEEDS_W else "")
    add(rc, rc, a)
    add(rc + "/sep", rc, a, **sep)
    if nend is None:
        add(rc + "/yend", rc, "y x yend q w " + R)
add("OLS_Regimes/mix", "OLS_Regimes", "y x w regimes", cols2regi=[True, False], constant_regi="one", slx_lags=0, spat_diag=True, regime_err_sep=False)
add("GM_Lag_Regimes/slx", "GM_Lag_Regimes", "y x w regimes", slx_lags=1, spat_impacts="all")
add("ML_Lag_Regimes/slx", "ML_Lag_Regimes", "y x w regimes", slx_lags=1, spat_impacts="full")
add("GM_Combo_Regimes/slx", "GM_Combo_Regimes", "y x w regimes", slx_lags=1)
add("GM_Lag_Regimes/lagpart", "GM_Lag_Regimes", "y x w regimes", regime_err_sep=True, regime_lag_sep=True, cols2regi=[True, False], constant_regi="many", spat_impacts=None)
add("TSLS_Regimes/mix", "TSLS_Regimes", "y x yend q w regimes", cols2regi=[True, False, False], constant_regi="many", spat_diag=True, regime_err_sep=False)
add("GM_Lag_Regimes/yslx", "GM_Lag_Regimes", "y x yend q w regimes", w_lags=2, slx_lags=1, slx_vars=[False, True], robust=None)
add("GM_Lag/slx2", "GM_Lag", "y x yend q w", slx_lags=2, slx_vars=[True, False], robust="white", lag_q=False)
add("OLS/slx4", "OLS", "y x w", slx_lags=4)
add("TSLS_Regimes/slx3", "TSLS_Regimes", "y x yend q w regimes", slx_lags=3, slx_vars=[True, False])
add("OLS_Regimes/slx", "OLS_Regimes", "y x w regimes", slx_lags=2, slx_vars=[False, True], spat_diag=True, robust="white")
add("GM_Combo_Het_Regimes/yslx", "GM_Combo_Het_Regimes", "y x yend q w regimes", slx_lags=1)
add("GM_Endog_Error_Hom_Regimes/slx", "GM_Endog_Error_Hom_Regimes", "y x yend q w regimes", slx_lags=1)
add("ML_Error_Regimes/slx", "ML_Error_Regimes", "y x w regimes", slx_lags=1)
add("ML_Error_Regimes/mix", "ML_Error_Regimes", "y x w regimes", cols2regi=[True, False], constant_regi="one")
add("OLS/regimes", "OLS", "y x w regimes", spat_diag=True)
add("GMM_Error/regimes", "GMM_Error", "y x w regimes", estimator="hom")
ENDOG = dict(n_clusters=3, quorum=8)
add("OLS_Endog_Regimes", "OLS_Endog_Regimes", "y x w", **ENDOG)
add("TSLS_Endog_Regimes", "TSLS_Endog_Regimes", "y x yend q w", n_clusters=2, quorum=14)
add("GM_Lag_Endog_Regimes", "GM_Lag_Endog_Regimes", "y x w", n_clusters=2, quorum=14)
# panels (long format unless /wide)
for c in ("PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE", "ML_LagRE"):
    add(c, c, "py px w")
    add(c + "/slx", c, "py px w", slx_lags=1)
    add(c + "/wide", c, "wy wx w")
for c in ("Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "GM_KKP"):
    add(c, c, "py px w")
    add(c + "/wide", c, "wy wx w")
# systems
add("SUR", "SUR", "sy sx w", spat_diag=True)
add("SUR/iter", "SUR", "sy sx", iter=True)
add("SUR/reg", "SUR", "sy sx w regimes", spat_diag=True)
add("ThreeSLS", "ThreeSLS", "sy sx se sq")
add("ThreeSLS/reg", "ThreeSLS", "sy sx se sq regimes")
add("SURlagIV", "SURlagIV", "sy sx w")
add("SURlagIV/yend", "SURlagIV", "sy sx se sq w", w_lags=2)
add("SURlagIV/reg", "SURlagIV", "sy sx w regimes")
add("SURlagIV/yend_reg", "SURlagIV", "sy sx se sq w regimes")
add("SURlagIV/sep_reg", "SURlagIV", "sy sx se sq w regimes", regime_lag_sep=True)
add("SURerrorGM", "SURerrorGM", "sy sx w", spat_diag=True)
add("SURerrorGM/reg", "SURerrorGM", "sy sx w regimes")
add("SURerrorML", "SURerrorML", "sy sx w", spat_diag=True)
add("SURerrorML/reg", "SURerrorML", "sy sx w regimes")

PARAM = {"ybin": "y", "yns": "y", "py": "y", "px": "x", "wy": "y", "wx": "x", "sy": "bigy", "sx": "bigX", "se": "bigyend", "sq": "bigq"}
SUR_E = 2


def panel(wk=WK, seed=5, t=T, k=2):
    """long arrays: period blocks of N rows"""
    wd = world(seed, wk)
    n = wd.n
    rs = np.random.RandomState(seed)
    X = 2 * rs.rand(n * t, k) + 0.4 * rs.randn(n * t, k)
    mu = np.tile(0.8 * rs.randn(n), t)[:, None]
    e = rs.randn(n * t, 1) * 0.7
    I = np.eye(n)
    M = np.linalg.inv(I - 0.3 * wd.W)
    yy = 1.0 + X @ np.array([[1.1], [-0.6], [0.4]])[:k] + mu + e
    yy = (M @ yy.reshape(t, n).T).T.reshape(-1, 1)
    return wd, yy, X


def wide(v, n, t):
    """(n*t, k) -> (n, k*t), first all periods of variable 1"""
    return np.hstack([v[:, [j]].reshape(t, n).T for j in range(v.shape[1])])


def sur(wk=WK, seed=7, eqs=SUR_E):
    wd = world(seed, wk, rho=0.0)
    rs = np.random.RandomState(seed)
    n = wd.n
    sy, sx, se, sq = {}, {}, {}, {}
    com = rs.randn(n, 1)
    for r in range(eqs):
        x = 2 * rs.rand(n, 2 + r % 2)
        q = rs.rand(n, 2) + 0.3 * rs.randn(n, 2)
        eps = 0.6 * com + 0.5 * rs.randn(n, 1)
        ye = q @ np.array([[1.0], [0.7 + 0.2 * r]]) + 0.4 * eps + 0.3 * rs.randn(n, 1)
        yy = 1.0 + x @ np.array([[1.0], [-0.5], [0.8]])[: x.shape[1]] + 0.5 * ye + np.linalg.solve(np.eye(n) - 0.3 * wd.W, eps)
        sy[r], sx[r], se[r], sq[r] = yy, np.hstack([np.ones((n, 1)), x]), ye, q
    return wd, sy, sx, se, sq


def data(args, wk=WK, seed=11):
    """fresh values for the data arguments"""
    d = base(wk, seed)
    if any(a in ("py", "px", "wy", "wx") for a in args):
        wd, py, px = panel(wk)
        d.update(py=py, px=px, wy=wide(py, wd.n, T), wx=wide(px, wd.n, T), w=wd.w)
    if any(a in ("sy", "sx", "se", "sq") for a in args):
        wd, sy, sx, se, sq = sur(wk)
        d.update(sy=sy, sx=sx, se=se, sq=sq, w=wd.w)
    return {a: d[a] for a in args}


def names(args):
    out = {}
    for a in args:
        if a in NAMES:
            k, v = NAMES[a]
        elif a in ("py", "wy", "ybin", "yns"):
            k, v = "name_y", "resp"
        elif a in ("px", "wx"):
            k, v = "name_x", ["inc", "hov"]
        elif a == "sy":
            k, v = "name_bigy", {0: "ya", 1: "yb"}
        elif a == "sx":
            k, v = "name_bigX", {0: ["Constant", "xa", "xb"], 1: ["Constant", "xc", "xd", "xe"]}
        elif a == "se":
            k, v = "name_bigyend", {0: ["ea"], 1: ["eb"]}
        elif a == "sq":
            k, v = "name_bigq", {0: ["qa", "qb"], 1: ["qc", "qd"]}
        else:
            continue
        out[k] = v
    return out


def fn(name):
    import spreg
    return getattr(spreg, name)


def make(key, wk=WK, seed=11, withnames=True):
    f, args, opt = CONF[key]
    kw = {PARAM.get(a, a): v for a, v in data(args, wk, seed).items()}
    if withnames:
        kw.update({k: (list(v) if isinstance(v, list) else dict((i, list(j) if isinstance(j, list) else j) for i, j in v.items()) if isinstance(v, dict) else v) for k, v in names(args).items()})
        kw["name_ds"] = "data"
    kw.update({k: (list(v) if isinstance(v, list) else v) for k, v in opt.items()})
    return fn(f), kw
