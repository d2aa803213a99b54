"""P11: entry points with dispatch deliver exactly the specific estimator.

Option space of each entry point, explored with a bound on the number of options
that deviate from their defaults (all combinations of up to D deviations, times
all values of each); every attribute, property, name, table and the summary text
of the dispatched model is compared with that of the specific class given the
same options under its own signature.
"""
import inspect, itertools
import numpy as np
import deep, worlds, regs

META = {"rule": "every combination of up to D options of the entry point deviating from default (all values of each); full object graph of the dispatched model compared exactly with the specific estimator class",
        "assumptions": ["an option that the specific regimes class does not have (non-default slx_vars/hard_bound of some GM error classes) must be refused, not dropped",
                        "vif and nonspat_diag are not options of the regimes 2SLS/OLS classes and spat_diag is documented as ignored by GMM_Error"]}

KR = {"constant_regi": ["one"], "cols2regi": ["mask"], "regime_err_sep": [True, False], "cores": []}
COMMON = {"vm": [True], "names": [1], "latex": [True], "slx": [(1, "All"), (2, "All"), (1, "mask"), (2, "mask")]}
ENTRY = {
    "OLS": dict(COMMON, robust=["white", "hac"], sig2n_k=[False], nonspat_diag=[False], spat_diag=[True], moran=[True],
                white_test=[True], constant_regi=["one"], cols2regi=["mask"], regime_err_sep=[False]),
    "TSLS": dict(COMMON, robust=["white", "hac"], sig2n_k=[False], spat_diag=[True],
                 constant_regi=["one"], cols2regi=["mask"], regime_err_sep=[True]),
    "GM_Lag": dict(COMMON, robust=["white", "hac"], sig2n_k=[True], spat_diag=[False], w_lags=[2], lag_q=[False], hard_bound=[True],
                   spat_impacts=["full", "power", "all", None], endog=[1], constant_regi=["one"], cols2regi=["mask"], regime_err_sep=[True], regime_lag_sep=[True]),
    "ML_Lag": dict(COMMON, method=["lu", "ord"], epsilon=[1e-3], spat_impacts=["full", "power", "all", None], spat_diag=[False],
                   constant_regi=["one"], cols2regi=["mask"], regime_lag_sep=[True]),
    "ML_Error": dict(COMMON, method=["lu", "ord"], epsilon=[1e-3], constant_regi=["one"], cols2regi=["mask"], regime_err_sep=[True]),
}
EST = {"het": "_Het", "hom": "_Hom", "kp98": ""}
GMM = dict(COMMON, estimator=["hom", "kp98"], add_wy=[True], endog=[1], hard_bound=[True], max_iter=[2], epsilon=[1e-3], step1c=[True],
           inv_method=["true_inv"], A1=["hom", "het"], w_lags=[2], lag_q=[False])
GMMR = dict(GMM, constant_regi=["one"], cols2regi=["mask"], regime_err_sep=[True], regime_lag_sep=[True])
SPECIAL = {
    # default option points the combination bound starts from
    "GMM_Error": [{}, {"estimator": "hom"}, {"estimator": "kp98"}, {"add_wy": True}, {"endog": 1}, {"estimator": "hom", "add_wy": True}, {"estimator": "kp98", "add_wy": True},
                  {"estimator": "hom", "endog": 1}, {"estimator": "kp98", "endog": 1}, {"estimator": "het", "endog": 1, "add_wy": True},
                  {"estimator": "hom", "endog": 1, "add_wy": True}, {"estimator": "kp98", "endog": 1, "add_wy": True}],
}
SPECIAL["GMM_Error>regimes"] = SPECIAL["GMM_Error"]
SPECIAL["GMM_Error_Regimes"] = SPECIAL["GMM_Error"]


def combos(space, depth, base):
    free = {k: v for k, v in space.items() if k not in base and v}
    for d in range(depth + 1):
        for ks in itertools.combinations(sorted(free), d):
            for vals in itertools.product(*[free[k] for k in ks]):
                yield dict(base, **dict(zip(ks, vals)))


def cases(tier):
    out = []
    D = 3 if tier == "thorough" else 2
    for e, space in ENTRY.items():
        cs = list(combos(space, D, {}))
        for i in range(0, len(cs), 24):
            out.append(("%s/%d" % (e, i // 24), (e, cs[i:i + 24])))
    for e in ("GMM_Error", "GMM_Error>regimes", "GMM_Error_Regimes"):
        space = GMM if e == "GMM_Error" else GMMR
        for b, base in enumerate(SPECIAL[e]):
            sp_ = {k: v for k, v in space.items() if k not in ("estimator", "add_wy", "endog")}
            cs = list(combos(sp_, D - 1 if tier == "quick" else D, base))
            if tier == "thorough":
                cs = list(combos(sp_, 2, base))
            for i in range(0, len(cs), 24):
                out.append(("%s/b%d/%d" % (e, b, i // 24), (e, cs[i:i + 24])))
    return out


def build(o, wd, regimes):
    """keyword arguments of the plain-style call from an option point"""
    o = dict(o)
    k = wd.x.shape[1]
    kw = {}
    names = o.pop("names", None)
    slx = o.pop("slx", None)
    if slx:
        kw["slx_lags"] = slx[0]
        kw["slx_vars"] = ([True] + [False] * (k - 2) + [True]) if slx[1] == "mask" else slx[1]
    endog = o.pop("endog", None)
    if endog:
        kw["yend"], kw["q"] = wd.yend, wd.q
    if "cols2regi" in o:
        o.pop("cols2regi")
        nl = 0 if not slx else slx[0] * (2 if slx[1] == "mask" else k)
        kw["cols2regi"] = [True] * (k + nl)
        kw["cols2regi"][1] = False
        if endog:
            kw["cols2regi"] = kw["cols2regi"] + [True] * wd.yend.shape[1]
    if o.get("robust") == "hac":
        kw["gwk"] = wd.kernel()
        if names:
            kw["name_gwk"] = "my_kernel"
    kw.update(o)
    if names:
        kw.update(name_y="resp", name_x=["a%d" % i for i in range(k)], name_w="my_w", name_ds="my_ds")
        if regimes:
            kw["name_regimes"] = "my_reg"
        if endog:
            kw.update(name_yend=["e%d" % i for i in range(wd.yend.shape[1])], name_q=["i%d" % i for i in range(wd.q.shape[1])])
    return kw


def cp(kw):
    """fresh copies of the list arguments (call history is P13's business)"""
    return {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}


def outcome(f):
    try:
        m = f()
    except Exception as e:
        return None, e
    return m, None


def run(payload, T):
    e, points = payload
    import spreg
    wd = worlds.World("queen:7x8", k=4, e=1, m=2, rho=0.3, seed=5)
    R = regs.regimes("cols", 7, 8)
    accept = lambda c: set(inspect.signature(c.__init__).parameters)
    for o in points:
        tag = ",".join("%s=%s" % (k, o[k]) for k in sorted(o)) or "default"
        regimes = e != "GMM_Error"
        kw = build(o, wd, regimes)
        base = dict(y=wd.y, x=wd.x, w=wd.w)
        if e in ENTRY:
            target = getattr(spreg, e + "_Regimes")
            entry = getattr(spreg, e)
            if e == "TSLS":
                base.update(yend=wd.yend, q=wd.q)
            full = dict(base, regimes=R, **kw)
            # the plain entry's own defaults are what the caller asked for
            sg = inspect.signature(entry.__init__).parameters
            want = dict(full)
            for p in sg.values():
                if p.default is not inspect._empty and p.name not in want and p.name in accept(target) and p.name != "self":
                    want[p.name] = p.default
        else:
            stem = "GM_" + ("Combo" if o.get("add_wy") else "Endog_Error" if o.get("endog") else "Error") + EST[o.get("estimator", "het")]
            target = getattr(spreg, stem + ("_Regimes" if regimes else ""))
            entry = spreg.GMM_Error_Regimes if e == "GMM_Error_Regimes" else spreg.GMM_Error
            full = dict(base, **kw)
            if regimes:
                full["regimes"] = R
            want = {k: v for k, v in full.items() if k not in ("estimator", "add_wy")}
            if isinstance(want.get("slx_vars"), str) and "slx_vars" not in accept(target):
                want.pop("slx_vars")   # "All" is what these classes do
                if e == "GMM_Error_Regimes":
                    full.pop("slx_vars")
            if regimes and not o.get("add_wy") and want.pop("regime_lag_sep", None) is not None:
                full.pop("regime_lag_sep")   # only meaningful when a lag is added
        T.state(e, tag)
        m1, x1 = outcome(lambda: entry(**cp(full)))
        m2, x2 = outcome(lambda: target(**cp(want)))
        T.call(2)
        name = "%s{%s}" % (e, tag)
        if x2 is not None:
            # unsupported combination: must be refused by the entry point as well
            T.true(name + "/refused", x1 is not None and (isinstance(x2, TypeError) or type(x1) == type(x2)),
                   "specific class raises %r, entry point gives %r" % (x2, x1 or m1))
            continue
        if x1 is not None:
            T.fail(name + "/raises", "entry point raises %r, %s does not" % (x1, target.__name__))
            continue
        d = deep.diff(deep.flatten(m1), deep.flatten(m2), ignore=())
        T.compared += 1
        if d:
            T.fail(name + "/differs", "%d differences: %s" % (len(d), d[:6]))
        if not (e.startswith("GMM")) and T.true(name + "/class", type(m1) is target, type(m1)):
            pass
