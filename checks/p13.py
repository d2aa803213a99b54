"""P13: estimation never alters its inputs and is independent of call history."""
import itertools
import contextlib, io
import numpy as np
import pandas as pd
import allest, deep, worlds

META = {"rule": "(inputs) a state is one (procedure, input form): complete snapshot of every argument before and after; (hist) a state is one history of calls sharing the same argument objects: the complete result graph of every call compared with the call made alone; (other) a state is a call made after the same call on other data, other weights of the same size and number of links, the same objects with changed content or another transformation: compared with the call in a process of its own; (read) a state is one order of reading lazily computed attributes",
        "assumptions": ["argument state = values, shapes, dtypes, list/dict contents and order, column labels, W neighbours/weights/transform/ids", "procedures are deterministic given their arguments"]}


def quiet(f, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(**kw)


def forms(kw):
    """name -> function giving the same kwargs in another accepted form"""
    def flat(v):
        return v.ravel().copy() if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] == 1 else v

    def pdy(k, v):
        if isinstance(v, np.ndarray) and v.ndim == 2 and k not in ("coords",):
            if k == "y":
                return pd.Series(v.ravel(), name="ser") if v.shape[1] == 1 else pd.DataFrame(v, columns=["%s%d" % (k, i) for i in range(v.shape[1])])
            return pd.DataFrame(v, columns=["%s_%s" % (k, "abcdefghijkl"[i]) for i in range(v.shape[1])])
        return v
    out = {"plain": kw}
    if isinstance(kw.get("y"), np.ndarray):
        out["flat"] = {k: (flat(v) if k in ("y", "yend", "q") else v) for k, v in kw.items()}
        out["pandas"] = {k: pdy(k, v) for k, v in kw.items() if k not in ("name_y", "name_x", "name_yend", "name_q")}
        out["const"] = {k: (np.hstack([v[:, :1], np.full((len(v), 1), 3.0), v[:, 1:]]) if k == "x" else (["inc", "kst", "hov"] if k == "name_x" else v)) for k, v in kw.items()}
        out["noname"] = {k: v for k, v in kw.items() if not k.startswith("name_")}
        if "regimes" in kw:
            out["regarr"] = dict(kw, regimes=np.array(kw["regimes"]))
            out["regser"] = dict(kw, regimes=pd.Series(kw["regimes"], name="rg"))
            out["conlist"] = dict(kw, cols2regi=[True] * kw["x"].shape[1]) if "cols2regi" not in kw else kw
    elif isinstance(kw.get("bigy"), dict):
        out["noname"] = {k: v for k, v in kw.items() if not k.startswith("name_")}
        out["flat"] = {k: ({r: flat(a) for r, a in v.items()} if k == "bigy" else v) for k, v in kw.items()}
    if "w" in kw:
        out["strid"] = None      # rebuilt below with string identifiers
        out["bin"] = None
        out["asym"] = None
    return out


HIST_CORE = ["OLS", "TSLS/slx", "GM_Lag/slx", "GM_Error", "GM_Combo_Het", "GM_Endog_Error_Hom", "ML_Lag/ord", "ML_Error/ord", "ML_Lag/lu", "Probit", "OLS_Regimes/mix", "GM_Lag_Regimes/sep", "ML_Error_Regimes", "OLS_Endog_Regimes"]


def groups():
    """configurations that can share the same argument objects"""
    g = {"cross": [], "panel": [], "sur": []}
    for k, (f, args, opt) in allest.CONF.items():
        g["sur" if "sy" in args else "panel" if ("py" in args or "wy" in args) else "cross"].append(k)
    return g


SKIP_HEAVY = ("SURerrorML/reg",)


def cases(tier):
    out = [("in/" + k, ("in", k)) for k in allest.CONF]
    out += [("fun/" + k, ("fun", k)) for k in FUNS]
    for gname, ks in groups().items():
        ks = [k for k in ks if k not in SKIP_HEAVY]
        if tier == "quick":
            ks = [k for k in ks if not k.endswith(("/wide", "/hac")) and not k.startswith(("Panel_", "GM_KKP"))]
        for k in ks:
            out.append(("hist/%s/%s" % (gname, k), ("hist", gname, k, ks)))
    if tier == "thorough":
        for a in HIST_CORE:
            out.append(("hist3/" + a, ("hist3", a)))
    out.append(("read", ("read",)))
    ks = [k for k in allest.CONF if k not in SKIP_HEAVY]
    step_ = 16 if tier == "quick" else 8
    for mode in OTHER if tier == "thorough" else [m for m in OTHER if m != "all"]:
        for i in range(0, len(ks), step_):
            out.append(("other/%s/%d" % (mode, i), ("other", mode, ks[i:i + step_])))
    return out


# -------------------------------------------------- histories on other inputs of the same shape
OTHER = ("data", "w", "all", "inplace", "transform")


def rewired(w):
    """symmetric graph of the same size, with the same number of links at every unit, but other links"""
    from libpysal import weights
    nb = {i: set(w.neighbors[i]) for i in w.id_order}
    ids, done = list(w.id_order), 0
    pairs = [(a, b) for a in ids for b in w.neighbors[a] if ids.index(a) < ids.index(b)]
    g = np.random.default_rng(9)
    for _ in range(400):
        (a, b), (c, d) = (pairs[j] for j in g.choice(len(pairs), 2, replace=False))
        if len({a, b, c, d}) < 4 or c in nb[a] or d in nb[b] or b not in nb[a] or d not in nb[c] or a not in nb[b] or c not in nb[d]:
            continue
        for p_, q_ in ((a, b), (c, d)):
            nb[p_].discard(q_); nb[q_].discard(p_)
        for p_, q_ in ((a, c), (b, d)):
            nb[p_].add(q_); nb[q_].add(p_)
        done += 1
        if done == 12:
            break
    out = weights.W({i: sorted(nb[i], key=ids.index) for i in ids}, id_order=ids, silence_warnings=True)
    out.transform = w.transform
    return out


def other(kw, mode):
    """the arguments changed; `inplace` changes the content of the same objects"""
    def arr(k, v):
        if not (isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.ndim in (1, 2)):
            return v
        new = v[::-1] * 1.0 if set(np.unique(v)) <= {0.0, 1.0} else v + 0.25 * v[::-1] * (np.ptp(v, axis=0) > 0)
        if mode == "inplace":
            v[...] = new
            return v
        return new
    out = {}
    for k, v in kw.items():
        if mode in ("data", "all", "inplace") and isinstance(v, np.ndarray):
            out[k] = arr(k, v)
        elif mode in ("data", "all", "inplace") and isinstance(v, dict) and k.startswith("big"):
            new = {r: arr(k, a) for r, a in v.items()}
            if mode == "inplace":
                v.update(new)
            out[k] = v if mode == "inplace" else new
        elif mode in ("data", "all") and k == "regimes":
            out[k] = list(v[1:]) + list(v[:1])
        elif mode == "inplace" and k == "regimes" and isinstance(v, list):
            v.append(v.pop(0))
            out[k] = v
        elif mode in ("w", "all") and k == "w":
            out[k] = rewired(v)
        elif mode == "transform" and k == "w":
            v.transform = "b" if v.transform == "R" else "r"
            out[k] = v
        else:
            out[k] = v
    return out


def frozen(f, kw):
    try:
        return deep.freeze(quiet(f, kw))
    except Exception as e:
        return {"": ("v", "raises " + type(e).__name__)}


def serve(mode, ks, path):
    """(in a process of its own) the calls on the changed arguments, which no other arguments preceded"""
    import pickle
    out = {}
    for k in ks:
        f, kw = allest.make(k)
        out[k] = frozen(f, other(kw, mode))
    with open(path, "wb") as h:
        pickle.dump(out, h)


def run_other(case, T):
    import os, pickle, subprocess, sys, tempfile
    _, mode, ks = case
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "ref")
        code = "import sys; sys.path[:0] = %r; import warnings; warnings.simplefilter('ignore'); import p13; p13.serve(%r, %r, %r)" % ([q for q in sys.path if q], mode, ks, path)
        subprocess.run([sys.executable, "-c", code], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ref = pickle.load(open(path, "rb"))
    for k in ks:
        f, kw = allest.make(k)
        frozen(f, kw)
        got = frozen(f, other(kw, mode))
        T.call(2); T.state(mode, k)
        diff = deep.diff(ref[k], got)
        T.true("after_other/%s" % k, not diff, "history: %s on other arguments (%s), then this call: %s" % (k, mode, diff[:3]))


def snap(kw):
    return {k: deep.freeze(v) for k, v in kw.items()}


def types(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [types(i) for i in v]
    if isinstance(v, dict):
        return ["dict"] + [(k, types(i)) for k, i in v.items()]
    if isinstance(v, np.ndarray):
        return "array %s %s %s" % (v.dtype, v.shape, v.flags.writeable)
    return type(v).__name__


def run(case, T):
    getattr(__import__("p13"), "run_" + case[0])(case, T)


def compare_inputs(T, key, kw, before, ty, cache):
    for k in kw:
        d = deep.diff(before[k], deep.freeze(kw[k]))
        T.true(key + k, not d, d[:3])
        T.true(key + k + "/type", types(kw[k]) == ty[k], (ty[k], types(kw[k])))
        if hasattr(kw[k], "id_order"):
            T.true(key + k + "/order", (kw[k].id_order_set, list(kw[k].islands)) == cache[k], "")


def run_in(case, T):
    key = case[1]
    f, kw0 = allest.make(key)
    ff = forms(kw0)
    for form in ff:
        kw = ff[form]
        if form == "strid":
            _, kw = allest.make(key, wk="strid:6x8")
        elif form == "asym":
            _, kw = allest.make(key, wk="knn:6x8")
        elif form == "bin":
            _, kw = allest.make(key)
            kw["w"].transform = "b" if "coords" not in kw else "r"
        else:
            # fresh objects for each form
            _, k1 = allest.make(key)
            kw = forms(k1)[form]
        before, ty = snap(kw), {k: types(v) for k, v in kw.items()}
        cache = {k: (v.id_order_set, list(v.islands)) for k, v in kw.items() if hasattr(v, "id_order")}
        T.call(); T.state(key, form)
        try:
            quiet(f, kw)
            done = True
        except Exception as e:
            done = repr(e)
            T.notes.append("%s/%s refused: %s" % (key, form, done[:120])) if hasattr(T, "notes") else None
        compare_inputs(T, "%s/" % form, kw, before, ty, cache)


def alone(key):
    f, kw = allest.make(key)
    try:
        return deep.freeze(quiet(f, kw))
    except Exception as e:
        return {"": ("v", "raises " + type(e).__name__)}


def shared(gname):
    """one set of argument objects used by all calls of a history"""
    pool = {}

    def get(key):
        f, args, opt = allest.CONF[key]
        kw = {}
        for a in args:
            if a not in pool:
                pool.update(allest.data([a]) if a not in ("py", "px", "sy", "sx", "se", "sq", "wy", "wx") else {})
                if a not in pool:
                    full = allest.data(["py", "px", "wy", "wx"] if gname == "panel" else ["sy", "sx", "se", "sq"])
                    for k, v in full.items():
                        pool.setdefault(k, v)
            kw[allest.PARAM.get(a, a)] = pool[a]
        for k, v in allest.names(args).items():
            kw[k] = pool.setdefault("n_" + k, list(v) if isinstance(v, list) else v)
        for k, v in opt.items():
            kw[k] = pool.setdefault("o_%s_%s" % (key, k), list(v) if isinstance(v, list) else v)
        kw["name_ds"] = "data"
        return allest.fn(f), kw
    if gname != "cross":
        # panel/SUR worlds bring their own weights
        pool.update(w=allest.data(["w", "py"] if gname == "panel" else ["w", "sy"])["w"])
        d = allest.data(["py", "px", "wy", "wx"] if gname == "panel" else ["sy", "sx", "se", "sq"])
        pool.update(d)
    return get


def step(get, key):
    f, kw = get(key)
    try:
        return deep.freeze(quiet(f, kw))
    except Exception as e:
        return {"": ("v", "raises " + type(e).__name__)}


def run_hist(case, T):
    """histories a, a,b1,a,b2,a,... on shared arguments: every call equals the same call made alone, and the
    result object of the first call stays as it was"""
    _, gname, a, ks = case
    get = shared(gname)
    ref = {}
    f, kw = get(a)
    try:
        first = quiet(f, kw)
        before = deep.freeze(first)
    except Exception:
        first = None
    kept = True
    for b in ks:
        for k in (a, b):
            got = step(get, k)
            if k not in ref:
                ref[k] = alone(k)
            T.call(); T.state(gname, a, b, k)
            d = deep.diff(ref[k], got)
            T.true("after/%s" % k, not d, "history ...%s,%s: %s" % (a, b, d[:3]))
        if first is not None and kept:
            d = deep.diff(before, deep.freeze(first))
            T.true("kept/%s" % b, not d, d[:3])
            kept = not d


def run_hist3(case, T):
    a = case[1]
    ref = {k: alone(k) for k in HIST_CORE}
    get = shared("cross")
    for b in HIST_CORE:
        for c in HIST_CORE:
            for k in (a, b, c):
                d = deep.diff(ref[k], step(get, k))
                T.call(); T.state(a, b, c, k)
                T.true("seq/%s" % k, not d, "history %s,%s,%s: %s" % (a, b, c, d[:3]))


# ---- other procedures: diagnostics, generators, helpers ------------------------------------------
def _funs():
    import spreg
    wd = worlds.World("queen:6x8", k=2, e=1, m=2, rho=0.3, seed=11)
    ols = lambda: quiet(spreg.OLS, dict(y=wd.y, x=wd.x))
    d = {
        "LMtests": lambda: (spreg.LMtests, dict(ols=ols(), w=wd.w)),
        "MoranRes": lambda: (spreg.MoranRes, dict(ols=ols(), w=wd.w, z=True)),
        "AKtest": lambda: (spreg.AKtest, dict(iv=quiet(spreg.TSLS, dict(y=wd.y, x=wd.x, yend=wd.yend, q=wd.q)), w=wd.w)),
        "AKtest/gen": lambda: (spreg.AKtest, dict(iv=quiet(spreg.GM_Lag, dict(y=wd.y, x=wd.x, w=wd.w)), w=wd.w, case="gen")),
    }
    for n in ("white", "breusch_pagan", "koenker_bassett", "jarque_bera", "condition_index", "f_stat", "t_stat", "r2", "ar2", "se_betas", "log_likelihood", "akaike", "schwarz"):
        d["diag/" + n] = (lambda n: lambda: (getattr(spreg.diagnostics, n), dict(reg=ols())))(n)
    d["diag/vif"] = lambda: (spreg.vif, dict(reg=ols()))
    rs = lambda: np.random.default_rng(5)
    X = lambda: (wd.x.copy())
    for n in ("dgp_lag", "dgp_sperror", "dgp_lagerr", "dgp_mess"):
        d["dgp/" + n] = (lambda n: lambda: (getattr(spreg, n), dict(u=wd.y.copy(), xb=wd.x[:, :1].copy(), w=wd.w)))(n)
    for n in ("dgp_slxerror", "dgp_spdurbin", "dgp_gns"):
        d["dgp/" + n] = (lambda n: lambda: (getattr(spreg, n), dict(u=wd.y.copy(), xb=wd.x[:, :1].copy(), wxg=wd.x[:, 1:].copy(), w=wd.w)))(n)
    d["dgp/make_wx"] = lambda: (spreg.make_wx, dict(x=X(), w=wd.w, o=2))
    d["dgp/make_xb"] = lambda: (spreg.make_xb, dict(x=X(), beta=[1.0, 2.0, 3.0]))
    d["dgp/make_x"] = lambda: (spreg.make_x, dict(rng=None, n=10, mu=[0, 1], varu=[1, 2]))
    d["make_wnslx"] = lambda: (lambda coords, params: spreg.make_wnslx(coords, params), dict(coords=worlds._coords(6, 8), params=(6, 2.0, "exponential")))
    d["skater"] = lambda: (lambda w, x, y: spreg.Skater_reg().fit(3, w, x, {"reg": spreg.OLS, "y": y, "x": x}, quorum=8), dict(w=wd.w, x=wd.x.copy(), y=wd.y.copy()))
    d["skater/bin"] = lambda: (lambda w, x, y: spreg.Skater_reg().fit(3, w, x, {"reg": spreg.OLS, "y": y, "x": x}, quorum=8), dict(w=worlds.make_w("rookb:6x8"), x=wd.x.copy(), y=wd.y.copy()))
    for n in ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"):
        d["search/" + n] = (lambda n: lambda: (getattr(spreg, n), dict(y=wd.y, x=wd.x, w=wd.w, mprint=False, name_x=["a", "b"], name_y="yy", name_w="ww", name_ds="dd")))(n)
    for n in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror"):
        def g(n=n):
            p, yy, X = allest.panel()
            return getattr(spreg, n), dict(y=yy, x=X, w=p.w)
        d["panel/" + n] = g
    d["w_utils"] = lambda: (lambda w, regimes: spreg.w_regimes(w, regimes, sorted(set(regimes))), dict(w=wd.w, regimes=[i % 2 for i in range(48)]))
    d["lag_spatial"] = lambda: (spreg.sputils.spmultiplier, dict(w=wd.w, rho=0.4, method="all"))
    return d


FUNS = sorted(["LMtests", "MoranRes", "AKtest", "AKtest/gen", "diag/vif", "dgp/make_wx", "dgp/make_xb", "make_wnslx", "skater", "skater/bin", "w_utils", "lag_spatial"]
              + ["diag/" + n for n in ("white", "breusch_pagan", "koenker_bassett", "jarque_bera", "condition_index", "f_stat", "t_stat", "r2", "ar2", "se_betas", "log_likelihood", "akaike", "schwarz")]
              + ["dgp/" + n for n in ("dgp_lag", "dgp_sperror", "dgp_lagerr", "dgp_mess", "dgp_slxerror", "dgp_spdurbin", "dgp_gns")]
              + ["search/" + n for n in ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm")]
              + ["panel/" + n for n in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror")])


def run_fun(case, T):
    f, kw = _funs()[case[1]]()
    for v in kw.values():       # touch lazily computed attributes so that filling a cache is not taken for a change
        deep.freeze(v)
    before, ty = snap(kw), {k: types(v) for k, v in kw.items()}
    cache = {k: (v.id_order_set, list(v.islands)) for k, v in kw.items() if hasattr(v, "id_order")}
    T.call(); T.state(case[1])
    r1 = deep.freeze(quiet(f, kw))
    compare_inputs(T, "", kw, before, ty, cache)
    r2 = deep.freeze(quiet(f, kw))
    T.call()
    d = [x for x in deep.diff(r1, r2) if "time" not in x[0] and "_trace" not in x[0]]
    T.true("repeat", not d, d[:3])


def run_read(case, T):
    """every order of reading the lazily computed attributes of a fresh result"""
    import spreg
    wd = worlds.World("queen:6x8", k=2, e=1, m=2, rho=0.3, seed=11)
    mk = {
        "BaseOLS": lambda: spreg.BaseOLS(wd.y, wd.X),
        "BaseTSLS": lambda: spreg.BaseTSLS(wd.y, wd.X, wd.yend, q=wd.q),
        "BaseGM_Lag": lambda: spreg.GM_Lag(wd.y, wd.x, w=wd.w),
        "BaseGM_Error": lambda: spreg.BaseGM_Error(wd.y, wd.X, wd.w.sparse),
        "BaseML_Lag": lambda: spreg.ml_lag.BaseML_Lag(wd.y, wd.X, wd.w),
        "BaseML_Error": lambda: spreg.ml_error.BaseML_Error(wd.y, wd.X, wd.w),
        "BaseProbit": lambda: spreg.probit.BaseProbit((wd.y > np.median(wd.y)).astype(float), wd.X),
        "OLS": lambda: spreg.OLS(wd.y, wd.x, robust="white"),
        "PooledOLS": lambda: (lambda p: spreg.PooledOLS(p[1], p[2], p[0].w))(allest.panel()),
    }
    for name, f in mk.items():
        m0 = quiet(lambda: f(), {})
        P = [p for p in deep.props(type(m0)) if not p.startswith("_")]
        ok = []
        want = {}
        for p in P:
            m = quiet(lambda: f(), {})
            try:
                want[p] = deep.freeze(getattr(m, p)); ok.append(p)
            except Exception as e:
                want[p] = {"": ("v", "raises")}; ok.append(p)
        orders = itertools.permutations(ok) if len(ok) <= 5 else itertools.permutations(ok, 3)
        for o in orders:
            m = quiet(lambda: f(), {})
            T.call(); T.state(name, o)
            for p in o:
                try:
                    got = deep.freeze(getattr(m, p))
                except Exception:
                    got = {"": ("v", "raises")}
                d = deep.diff(want[p], got)
                T.true("%s/%s" % (name, p), not d, "%s: %s" % (o, d[:2]))
