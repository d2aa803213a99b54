"""P16: every coefficient is reported under its own variable's name."""
import contextlib, io, itertools
import numpy as np
import allest, worlds

META = {"rule": "a state is (estimator configuration, permutation of the columns of x, yend or q) or (estimator configuration, positions and values of constant columns); results are matched by reported name with those of the original column order",
        "assumptions": ["regressor sets of three columns, two endogenous variables, three instruments"]}

NX, NE, NQ = ["inc", "hov", "age"], ["price", "tax"], ["za", "zb", "zc"]
SKIP = ("Endog_Regimes",)
INV = ["sig2", "sig2n", "sig2n_k", "utu", "r2", "ar2", "pr2", "pr2_e", "logll", "aic", "schwarz", "f_stat", "jarque_bera", "breusch_pagan", "koenker_bassett", "lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "lm_wx", "lm_spdurbin",
       "rlm_wx", "rlm_durlag", "ak_test", "cfh_test", "dwh", "rho", "mulColli", "llik", "errllik", "surerrllik", "lrtest", "lmtest", "lmEtest", "lmlagtest", "theta", "mcfadrho", "LR", "KP_error", "Pinkse_error", "PS_error", "hausman_stat"]


def quiet(f, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(**kw)


def kind(key):
    f, args, opt = allest.CONF[key]
    return "sur" if "sy" in args else "panel" if ("py" in args or "wy" in args) else "cross"


def inputs(key):
    """kwargs with three regressors, two endogenous variables and three instruments"""
    f, kw = allest.make(key)
    f_, args, opt = allest.CONF[key]
    if "yend" in args:
        rs = np.random.RandomState(3)
        n = kw["y"].shape[0]
        kw["q"] = np.hstack([kw["q"], rs.rand(n, 1)])
        kw["yend"] = np.hstack([kw["yend"], kw["q"] @ np.array([[0.4], [-0.8], [1.1]]) + 0.5 * rs.randn(n, 1)])
        kw["name_yend"], kw["name_q"] = list(NE), list(NQ)
    rs = np.random.RandomState(4)
    if kind(key) == "cross":
        kw["x"] = np.hstack([kw["x"], 1 + rs.randn(kw["x"].shape[0], 1)])
    else:
        wd, y, X = allest.panel(k=3)
        if "wx" in args:
            kw["y"], kw["x"] = allest.wide(y, wd.n, allest.T), allest.wide(X, wd.n, allest.T)
        else:
            kw["y"], kw["x"] = y, X
    kw["name_x"] = list(NX)
    if isinstance(kw.get("slx_vars"), list):
        kw["slx_vars"] = [True, False, True]
    if isinstance(kw.get("cols2regi"), list):
        kw["cols2regi"] = [True, False, True] + [False] * (np.shape(kw["yend"])[1] if "yend" in kw else 0)
    return f, kw


def permute(kw, which, p, wide):
    nm = "name_" + which
    kw[nm] = [kw[nm][i] for i in p]
    if which == "x" and wide:
        kw["x"] = np.hstack([kw["x"][:, i * allest.T:(i + 1) * allest.T] for i in p])
    else:
        kw[which] = kw[which][:, list(p)]
    if which == "x":
        for o in ("slx_vars", "cols2regi"):
            if isinstance(kw.get(o), list):
                kw[o] = [kw[o][i] for i in p] + kw[o][len(p):]
    return kw


def insert(kw, pos, vals, wide):
    """constant columns at the given positions of the final matrix"""
    T = allest.T if wide else 1
    x, names = kw["x"], list(kw["name_x"])
    n = x.shape[0]
    masks = {o: list(kw[o]) for o in ("slx_vars", "cols2regi") if isinstance(kw.get(o), list)}
    for j, (p, v) in enumerate(zip(pos, vals)):
        x = np.insert(x, [p * T] * T, v, axis=1)
        names.insert(p, "kon%d" % j)
        for o in masks:
            masks[o].insert(p, True)
    kw["x"], kw["name_x"] = x, names
    kw.update(masks)
    return kw


def cases(tier):
    out = []
    for key, (f, args, opt) in allest.CONF.items():
        if any(s in key for s in SKIP) or key.startswith("Panel_RE_Error"):
            continue
        k = kind(key)
        if k == "sur":
            for r in (0, 1):
                n = 3 if r else 2
                for p in itertools.permutations(range(n)):
                    if list(p) != list(range(n)):
                        out.append(("%s/x%d/%s" % (key, r, "".join(map(str, p))), (key, "sx", r, p)))
                if "sq" in args:
                    out.append(("%s/q%d" % (key, r), (key, "sq", r, (1, 0))))
            continue
        for p in itertools.permutations(range(3)):
            if list(p) != [0, 1, 2]:
                out.append(("%s/x%s" % (key, "".join(map(str, p))), (key, "x", p)))
        if "yend" in args:
            out.append(("%s/yend10" % key, (key, "yend", (1, 0))))
            for p in ((1, 0, 2), (2, 1, 0), (1, 2, 0)) if tier == "quick" else [p for p in itertools.permutations(range(3)) if p != (0, 1, 2)]:
                out.append(("%s/q%s" % (key, "".join(map(str, p))), (key, "q", p)))
        ins = [((p,), (v,)) for p in range(4) for v in ((1.0, -2.5) if tier == "quick" else (1.0, 0.0, -2.5, 1e5))] + [((0, 2), (1.0, 3.0)), ((1, 4), (2.0, 0.0)), ((0, 1), (0.0, 1.0)), ((2, 3), (5.0, 5.0))]
        for pos, v in ins:
            out.append(("%s/const%s_%s" % (key, "".join(map(str, pos)), "_".join("%g" % i for i in v)), (key, "const", pos, v)))
    return out + iv_cases(tier)


IV = ("TSLS", "GM_Lag", "GM_Endog_Error", "GM_Combo", "GM_Endog_Error_Het", "GM_Combo_Het", "GM_Endog_Error_Hom", "GM_Combo_Hom")


def iv_cases(tier):
    """instrument, endogenous and regressor names against the columns held: all lag orders x options"""
    out = []
    for est in IV:
        sp = "Lag" in est or "Combo" in est
        for yend in ((True,) if not sp else (False, True)):
            for slx in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                for mask in ([None] if not slx else [None, [True, False, True], [False, True, False], [False, False, True]]):
                    for wl in ((1, 2, 3) if sp else (None,)):
                        for lq in ((True, False) if sp and yend else (None,)):
                            for reg in (None, "joint", "sep", "mix"):
                                if reg and mask and tier == "quick" and mask[1]:
                                    continue
                                opt = dict(slx_lags=slx)
                                if mask:
                                    opt["slx_vars"] = mask
                                if wl:
                                    opt["w_lags"] = wl
                                if lq is not None:
                                    opt["lag_q"] = lq
                                out.append(("names/%s/%s%s" % (est + ("" if yend else "-"), "_".join("%s%s" % (k, "".join(str(int(i)) for i in v) if isinstance(v, list) else v) for k, v in opt.items()), "/" + reg if reg else ""), ("names", est, yend, opt, reg)))
    for names in (["a", "b", "c"], ["W_a", "a", "b"]):
        for mask in ["All"] + [list(t) for t in itertools.product([True, False], repeat=3) if any(t)]:
            for cons in (True, False):
                for sl in (1, 2, 3):
                    for ql in (0, 1, 2):
                        if names[0] == "W_a" and (mask != "All" or ql):
                            continue
                        out.append(("names/flex_wx/%s/%s/%d%d%d" % (names[0], "".join(str(int(v)) for v in mask) if mask != "All" else "All", cons, sl, ql), ("names", "flex", names, mask, cons, sl, ql)))
    for key, (f, args, opt) in allest.CONF.items():
        if "sy" in args:
            for nm in ("given", "default", "odd"):
                for wl in (1, 2, 3) if key.startswith("SURlagIV") else (None,):
                    out.append(("names/sys/%s/%s%s" % (key, nm, "/wl%d" % wl if wl else ""), ("names", "sys", key, nm, wl)))
    return out


def sys_names(case, T):
    """systems: names of regressors, endogenous variables and instruments of every equation denote the columns held"""
    import re
    _, _, key, nm, wl = case
    f_, args, opt = allest.CONF[key]
    f, kw = allest.make(key, withnames=nm != "default")
    if wl:
        kw["w_lags"] = wl
    env, E = {}, sorted(kw["bigy"])
    if nm == "odd":
        for a in ("name_bigX", "name_bigyend", "name_bigq"):
            if kw.get(a):
                kw[a] = {r: [(v if i == 0 and a == "name_bigX" else "zz%d_%s%d" % (9 - i, a[-2:], r)) for i, v in enumerate(v_)] for r, v_ in kw[a].items()}
    given = {a: {r: list(v) for r, v in kw[a].items()} for a in ("name_bigX", "name_bigyend", "name_bigq") if kw.get(a)}
    data = {a: {r: np.array(v) for r, v in kw[a].items()} for a in ("bigy", "bigX", "bigyend", "bigq") if kw.get(a) is not None}
    yn = dict(kw["name_bigy"]) if kw.get("name_bigy") else None
    m = quiet(f, kw)
    reg = kw.get("regimes")
    w = kw.get("w")
    W = worlds.dense(w) if w is not None else None
    offs = set()
    for r in E:
        env = {}
        if nm == "default":
            y_ = str(m.name_bigy[r])
            T.true("default/y/%s" % r, re.match(r"^dep_var_%d$|^dep_var_%d$" % (r, r + 1), y_), y_)
            cand = [e for e in (r, r + 1) if any(str(v).endswith("var_1_%d" % e) for v in m.name_bigX[r])]
            if not T.eq("default/equation/%s" % r, len(cand), 1):
                return
            e = cand[0]
            offs.add(e - r)
            env["Constant_%d" % e] = data["bigX"][r][:, 0]
            for j in range(1, data["bigX"][r].shape[1]):
                env["var_%d_%d" % (j, e)] = data["bigX"][r][:, j]
            for a, b in (("bigyend", "end"), ("bigq", "inst")):
                if a in data:
                    for j in range(data[a][r].shape[1]):
                        env["%s_%d_%d" % (b, j + 1, e)] = data[a][r][:, j]
            env[y_] = data["bigy"][r].ravel()
        else:
            T.eq("y/%s" % r, m.name_bigy[r], yn[r])
            env[yn[r]] = data["bigy"][r].ravel()
            for a in ("bigX", "bigyend", "bigq"):
                if a in data:
                    for j, v in enumerate(given["name_" + a][r]):
                        env[v] = data[a][r][:, j]
        n = data["bigy"][r].shape[0]

        def col(name):
            k = 0
            a = re.match(r"^(W+)_(.*)$", name)
            if a and name not in env:
                k, name = len(a.group(1)), a.group(2)
            msk = np.ones(n)
            if reg is not None and name not in env:
                b = re.match(r"^([^_]*)_(.*)$", name)
                if not b:
                    return None
                msk = np.array([str(v) == b.group(1) for v in reg], float)
                name = b.group(2)
                a = re.match(r"^(W+)_(.*)$", name)
                if a and name not in env:        # 0_W_y: the regime's own part of the lag
                    v = env[a.group(2)]
                    for _ in a.group(1):
                        v = W @ v
                    return v * msk
            if name not in env:
                return None
            v = env[name] * msk
            for _ in range(k):
                v = W @ v
            return v
        for a in ("bigX", "bigyend", "bigq"):
            A = getattr(m, a, None)
            names = getattr(m, "name_" + a, None)
            if A is None or names is None:
                continue
            M = np.asarray(A[r].todense()) if hasattr(A[r], "todense") else np.asarray(A[r])
            if not T.eq("%s/%s/count" % (a, r), len(names[r]), M.shape[1]):
                continue
            T.eq("%s/%s/distinct" % (a, r), len(set(names[r])), len(names[r]))
            for j, v in enumerate(names[r]):
                c = col(str(v))
                T.true("%s/%s/%s" % (a, r, v), c is not None and np.allclose(c, M[:, j], rtol=1e-9, atol=1e-10), "column %d is not %s" % (j, v))
    T.true("default/numbering", len(offs) <= 1, offs)


def flex(case, T):
    """the lag builder behind slx_lags: names denote the columns returned"""
    import re
    from spreg.user_output import flex_wx
    _, _, names, mask, cons, sl, ql = case
    w = worlds.make_w("odd:5x6")
    W = worlds.dense(w)
    g = np.random.default_rng(2)
    x = g.normal(size=(W.shape[0], 3))
    X = np.hstack([np.ones((W.shape[0], 1)), x]) if cons else x
    nm = (["CONSTANT"] if cons else []) + list(names)
    got = flex_wx(w, X, list(nm), constant=cons, slx_lags=sl, slx_vars=mask if mask == "All" else list(mask), q_lags=ql)
    on = [True] * 3 if mask == "All" else mask
    lag = lambda j, k: np.linalg.matrix_power(W, k) @ x[:, j]
    want = [lag(j, k) for k in range(1, sl + 1) for j in range(3) if on[j]]
    T.close("x", got[0], np.hstack([X, np.array(want).T]), 1e-10, atol=1e-12, shape=True)
    T.eq("names", list(got[1]), nm + ["W%s_%s" % ("" if k == 1 else k, names[j]) for k in range(1, sl + 1) for j in range(3) if on[j]])
    if ql:
        first = [(j, k) for k in range(1, ql + 1) for j in range(3) if not on[j]]
        rest = [(j, k) for k in range(sl + 1, sl + ql + 1) for j in range(3) if on[j]]
        have = {}
        T.eq("q/count", got[2].shape[1], len(got[3]))
        for c, n_ in zip(got[2].T, got[3]):
            have[n_] = c
        T.eq("q/names", sorted(have), sorted("W%s_%s" % ("" if k == 1 else k, names[j]) for j, k in first + rest))
        for j, k in first + rest:
            T.close("q/W%d_%s" % (k, names[j]), have.get("W%s_%s" % ("" if k == 1 else k, names[j])), lag(j, k), 1e-10, atol=1e-12)


def iv_names(case, T):
    if case[1] == "flex":
        return flex(case, T)
    if case[1] == "sys":
        return sys_names(case, T)
    import spreg, re
    _, est, yend, opt, reg = case
    g = np.random.default_rng(5)
    w = worlds.make_w("rook:8x8")
    W = worlds.dense(w)
    n = W.shape[0]
    x = g.normal(size=(n, 3))
    u = g.normal(size=(n, 1))
    q = g.normal(size=(n, 3))
    ye = q @ np.array([[1., .5], [-.6, 1.], [.7, -1.]]) + .4 * u + .5 * g.normal(size=(n, 2))
    y = np.linalg.solve(np.eye(n) - .3 * W, 1 + x @ [[1.], [.5], [-1.]] + (ye @ [[1.], [-.5]] if yend else 0) + u)
    kw = dict(y=y, x=x, w=w, name_y="dep", name_x=list(NX), **{k: (list(v) if isinstance(v, list) else v) for k, v in opt.items()})
    if yend:
        kw.update(yend=ye, q=q, name_yend=list(NE), name_q=list(NQ))
    lab = [(3 * i) % 7 % 2 for i in range(n)]
    if reg:
        kw.update(regimes=lab, regime_err_sep=reg == "sep")
        if "Lag" in est or "Combo" in est:
            kw["regime_lag_sep"] = reg == "sep"
        if reg == "mix":
            kw.update(constant_regi="one", cols2regi=[False, True, True] + [True, False] * yend)
    f = getattr(spreg, est + ("_Regimes" if reg else ""))
    import inspect
    if any(k not in inspect.signature(f.__init__).parameters for k in kw):
        T.compared += 1
        return
    if reg and opt["slx_lags"] and reg == "mix":
        kw["cols2regi"] = "all"
        kw["constant_regi"] = "many"
    try:
        m = quiet(f, kw)
    except Exception as e:
        if reg and len(lab) and "nstrument" in str(e) or "ingular" in str(e):
            T.compared += 1
            return
        raise
    env = dict(zip(NX + NE + NQ, np.hstack([x, ye, q]).T))
    env["dep"] = y.ravel()
    env["CONSTANT"] = np.ones(n)

    def cols(name):
        """admissible columns of that name"""
        r = None
        mt = re.match(r"^(_Global|0|1)_(.*)$", name)
        if mt:
            r, name = mt.groups()
        k, b = 0, name
        mt = re.match(r"^W(\d*)_(.*)$", b)
        while mt:                             # W_W2_x is the lag of the second lag
            k, b = k + int(mt.group(1) or 1), mt.group(2)
            mt = re.match(r"^W(\d*)_(.*)$", b)
        if b not in env:
            return []
        msk = np.ones(n) if r in (None, "_Global") else np.array([str(v) == r for v in lab], float)
        v = env[b]
        out = []
        a = v
        for _ in range(k):
            a = W @ a
        out.append(a * msk)
        if k and r not in (None, "_Global"):
            a = v * msk                      # lags of the regime's own variable
            for _ in range(k):
                a = W @ a
            out.append(a)
            if reg == "sep":
                M = W * np.outer(msk, msk)
                M = M / np.where(M.sum(1) == 0, 1, M.sum(1))[:, None]
                a = v * msk
                for _ in range(k):
                    a = M @ a
                out.append(a)
        return out

    def match(T, pre, names, A):
        A = np.asarray(A.todense()) if hasattr(A, "todense") else np.asarray(A)
        if not T.eq(pre + "/count", len(names), A.shape[1]):
            return
        T.eq(pre + "/distinct", len(set(names)), len(names))
        for j, nm in enumerate(names):
            c = cols(str(nm))
            T.true(pre + "/" + str(nm), any(c_.shape[0] == A.shape[0] and np.allclose(c_, A[:, j], rtol=1e-9, atol=1e-9) for c_ in c), "column %d is not %s" % (j, nm))
    if reg == "sep":
        for r in (0, 1):
            mr = m.multi[r]
            idx = [i for i in range(n) if lab[i] == r]
            for a, nn in (("h", "name_h"), ("x", "name_x"), ("z", "name_z"), ("yend", "name_yend"), ("q", "name_q")):
                if hasattr(mr, a) and hasattr(mr, nn):
                    A = getattr(mr, a)
                    A = np.asarray(A.todense()) if hasattr(A, "todense") else np.asarray(A)
                    B = np.zeros((n, A.shape[1]))
                    B[idx] = A
                    match(T, "%d/%s" % (r, a), [i for i in getattr(mr, nn) if not str(i).endswith("lambda")], B)
        for nn in ("name_x", "name_yend", "name_q", "name_z", "name_h"):        # names of the whole model: those of its regimes
            if all(hasattr(m.multi[r], nn) for r in (0, 1)):
                T.eq("all/" + nn, [str(v) for v in getattr(m, nn)], [str(v) for r in (0, 1) for v in getattr(m.multi[r], nn)])
        names = list(m.name_h)
    else:
        for a, nn in (("h", "name_h"), ("x", "name_x"), ("z", "name_z"), ("yend", "name_yend"), ("q", "name_q")):
            if hasattr(m, a) and getattr(m, a) is not None and hasattr(m, nn):
                match(T, a, [i for i in getattr(m, nn) if not str(i).endswith("lambda")], getattr(m, a))
        names = list(m.name_h)
        o = m.output
        T.eq("output/names", sorted(str(v) for v in o["var_names"]), sorted(str(v) for v in m.name_z))
    # the names of all instruments: what the options prescribe
    lags, base_ = opt.get("w_lags"), ["CONSTANT"] + NX
    slx = opt["slx_lags"]
    mask = opt.get("slx_vars", [True] * 3)
    want = set(base_)
    lagged = lambda k, b: "W%s_%s" % ("" if k == 1 else k, b)
    for b, on in zip(NX, mask):
        for k in range(1, (slx if on else 0) + 1):
            want.add(lagged(k, b))
    if yend:
        want |= set(NQ)
    if lags:
        for b, on in zip(NX, mask):
            s0 = slx                         # lags beyond those used as regressors, of every variable
            for k in range(s0 + 1, s0 + lags + 1):
                want.add(lagged(k, b))
        if yend and opt["lag_q"]:
            for b in NQ:
                for k in range(1, lags + 1):
                    want.add(lagged(k, b))
    strip = set()
    for v in names:
        v, k = re.sub(r"^(_Global|0|1)_", "", str(v)), 0
        mt = re.match(r"^W(\d*)_(.*)$", v)
        while mt:
            k, v = k + int(mt.group(1) or 1), mt.group(2)
            mt = re.match(r"^W(\d*)_(.*)$", v)
        strip.add(lagged(k, v) if k else v)
    T.eq("instruments", sorted(strip), sorted(want))


_base = {}


def base(key, sur=False):
    if key not in _base:
        f, kw = allest.make(key) if sur else inputs(key)
        _base[key] = quiet(f, kw)
    return _base[key]


def tol(key):
    f = key.split("/")[0]
    if any(s in f for s in ("GM_Error", "Endog_Error", "Combo", "GMM", "KKP", "SURerror", "ML_", "Probit", "NSLX", "Panel_")) or "iter" in key:
        return 3e-4
    return 1e-7


def rows(m):
    """name -> (position in betas, coefficient)"""
    o = m.output
    return {str(r.var_names): (r.Index, r) for r in o.itertuples()}


def cl(T, name, a, b, rtol):
    b = np.asarray(b, float)
    T.close(name, a, b, rtol=rtol, atol=1e-10 + rtol * (np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0))


def compare(T, m0, m1, key, const=None):
    rtol = tol(key)
    if key.startswith("NSLX"):       # weakly identified decay parameters: names and closed-form fit
        T.eq("names", sorted(m1.output["var_names"]), sorted(m0.output["var_names"]))
        return
    if not hasattr(m0, "output"):    # deprecated panel classes
        b0, b1 = np.asarray(m0.betas).ravel(), np.asarray(m1.betas).ravel()
        d0, d1 = dict(zip(m0.name_x, b0)), dict(zip(m1.name_x, b1))
        T.eq("names", sorted(d1), sorted(d0))
        for k in d0:
            if k in d1:
                cl(T, "coef/" + str(k), d1[k], d0[k], rtol)
        return
    r0, r1 = rows(m0), rows(m1)
    T.eq("nrows", len(r0), len(m0.output))
    if not T.eq("names", sorted(r1), sorted(r0)):
        return
    for k in r0:
        for c in ("coefficients", "std_err", "zt_stat", "prob"):
            a, b = getattr(r1[k][1], c), getattr(r0[k][1], c)
            if b is None or not np.isscalar(b) or b != b:
                continue
            T.close("%s/%s" % (c, k), float(np.asarray(a).item()) if a is not None else None, float(b), rtol=rtol, atol=rtol * (1e-3 + abs(float(b)) + (abs(float(r0[k][1].std_err)) if r0[k][1].std_err is not None else 0)))
    if not hasattr(m0, "multi") and getattr(m0, "vm", None) is not None:
        V0, V1 = np.asarray(m0.vm), np.asarray(m1.vm)
        names = [k for k in r0 if r0[k][0] < V0.shape[0]]
        i0, i1 = [r0[k][0] for k in names], [r1[k][0] for k in names]
        if T.eq("vm/shape", V1.shape, V0.shape):
            cl(T, "vm", V1[np.ix_(i1, i1)], V0[np.ix_(i0, i0)], rtol * 3)
    for a in ("u", "predy", "predy_e", "e_filtered"):
        if isinstance(getattr(m0, a, None), np.ndarray):
            cl(T, a, getattr(m1, a), getattr(m0, a), rtol)
    import deep
    for a in INV:
        if hasattr(m0, a) and getattr(m0, a) is not None:
            if a in ("mulColli",):
                continue
            A, B = deep.flatten(getattr(m0, a)), deep.flatten(getattr(m1, a))
            for k in A:
                if A[k][0] == "a" and k in B:
                    cl(T, a + k, B[k][1], A[k][1], rtol * 5)
    if hasattr(m0, "chow") and not isinstance(m0.chow, str):
        c0 = {r.var_names: (r.value, r.prob) for r in m0.output_chow.itertuples()}
        c1 = {r.var_names: (r.value, r.prob) for r in m1.output_chow.itertuples()}
        if T.eq("chow/names", sorted(c1), sorted(c0)):
            for k in c0:
                cl(T, "chow/" + k, c1[k], c0[k], rtol * 20)
    if hasattr(m0, "slopes") and not key.startswith("NSLX"):
        s0, s1 = dict(zip(m0.name_x[1:], np.asarray(m0.slopes).ravel())), dict(zip(m1.name_x[1:], np.asarray(m1.slopes).ravel()))
        for k in s0:
            cl(T, "slopes/" + k, s1[k], s0[k], rtol)


def run(case, T):
    key = case[0]
    T.call(); T.state(*case)
    if key == "names":
        return iv_names(case, T)
    f_, args, opt = allest.CONF[key]
    if case[1] in ("sx", "sq"):
        which, r, p = case[1:]
        m0 = base(key, True)
        f, kw = allest.make(key)
        big, nm = ("bigX", "name_bigX") if which == "sx" else ("bigq", "name_bigq")
        c = [0] + [i + 1 for i in p] if which == "sx" else list(p)
        kw[big][r] = kw[big][r][:, c]
        kw[nm][r] = [kw[nm][r][i] for i in c]
        m1 = quiet(f, kw)
        return sur(T, m0, m1, key)
    m0 = base(key)
    f, kw = inputs(key)
    wide = "wx" in args
    if case[1] == "const":
        pos, vals = case[2:]
        kw = insert(kw, pos, vals, wide)
        masked = any(isinstance(kw.get(o), list) for o in ("slx_vars", "cols2regi"))
        try:
            m1 = quiet(f, kw)
        except Exception as e:
            if masked or key.startswith(("NSLX",)):
                T.true("refused", True)       # a mask that counts removed columns may be refused, not misread
                return
            raise
        if not key.startswith(("Panel_", "GM_KKP")):
            warn = str(getattr(m1, "warning", "")) + m1.summary
            for j in range(len(pos)):
                T.true("warned/%d" % j, "kon%d" % j in warn, warn[-300:])
    else:
        which, p = case[1:]
        m1 = quiet(f, permute(kw, which, p, wide))
    compare(T, m0, m1, key)


def sur(T, m0, m1, key):
    rtol = tol(key)
    B0, B1 = (m0.bSUR, m1.bSUR) if hasattr(m0, "bSUR") else (m0.b3SLS, m1.b3SLS)
    I0, I1 = (m0.sur_inf, m1.sur_inf) if hasattr(m0, "bSUR") else (m0.tsls_inf, m1.tsls_inf)
    for r in B0:
        n0 = list(m0.name_bigX[r]) + (list(m0.name_bigyend[r]) if hasattr(m0, "b3SLS") else [])
        n1 = list(m1.name_bigX[r]) + (list(m1.name_bigyend[r]) if hasattr(m1, "b3SLS") else [])
        T.eq("names/%s" % r, sorted(n1), sorted(n0))
        for i, k in enumerate(n0):
            j = n1.index(k)
            cl(T, "coef/" + k, B1[r][j], B0[r][i], rtol)
            cl(T, "inf/" + k, I1[r][j], I0[r][i], rtol * 5)
    cl(T, "sig", m1.sig, m0.sig, rtol)
    for a in INV:
        if getattr(m0, a, None) is not None and a in ("llik", "errllik", "surerrllik", "lrtest", "lmtest", "lmEtest", "lmlagtest"):
            cl(T, a, np.asarray(getattr(m1, a), float), np.asarray(getattr(m0, a), float), rtol * 5)
    if hasattr(m0, "chow_regimes"):
        for r in B0:
            cl(T, "chow/joint/%s" % r, m1.chow_regimes[r][0], m0.chow_regimes[r][0], rtol * 10)
            a, b = dict(zip(m1.name_x_r[r], m1.chow_regimes[r][1])), dict(zip(m0.name_x_r[r], m0.chow_regimes[r][1]))
            for k in b:
                cl(T, "chow/%s/%s" % (r, k), a[k], b[k], rtol * 10)
