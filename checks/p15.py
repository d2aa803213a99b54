"""P15: invalid input is refused, never silently estimated."""
import contextlib, io, re, warnings
import numpy as np
import pandas as pd
from libpysal import weights
import allest, worlds

META = {"rule": "a state is (estimator configuration, argument, kind of corruption, position); every one must end in an exception, while the uncorrupted input of the configuration is estimated",
        "assumptions": ["an exception of any type counts as a refusal"]}

# unknown names of these options may be replaced with the default as long as the result says so
ANNOUNCED = {"spat_impacts", "estimator", "constant_regi", "cols2regi", "method"}
ANN = re.compile("not supported|not available|not recogni|warning|forc|instead|invalid|must be", re.I)

DATA = {"y": 1, "ybin": 1, "yns": 1, "py": 1, "wy": 1, "x": 1, "px": 1, "wx": 1, "yend": 1, "q": 1, "sy": 2, "sx": 2, "se": 2, "sq": 2}


def quiet(f, kw):
    return talk(f, kw)[0]


def talk(f, kw):
    """the model and the lines in which it announces something: printed output, python warnings, the `warning` attribute and the summary"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m = f(**kw)
    text = [out.getvalue()] + [str(w.message) for w in ws] + [str(getattr(m, a, "")) for a in ("warning", "summary")]
    lines = set(l.strip() for t in text for l in t.split("\n"))
    return m, {l for l in lines if ANN.search(l)}


def spoil(v, kind, pos):
    """corrupted copy of a data array"""
    v = np.array(v, float)
    n, k = v.shape
    i, j = {"first": (0, 0), "mid": (n // 2, k // 2), "last": (n - 1, k - 1)}.get(pos, pos)
    if kind in ("nan", "inf", "-inf"):
        v[i, j] = float(kind)
        return v
    if kind == "bool":
        return v > np.median(v)
    if kind == "text":
        return np.array([[str(c) for c in r] for r in v])
    if kind == "object":
        o = v.astype(object)
        o[i, j] = "abc"
        return o
    if kind == "nanframe":
        v[i, j] = np.nan
        return pd.DataFrame(v, columns=["c%d" % c for c in range(k)])
    if kind == "boolframe":
        return pd.DataFrame(v > np.median(v), columns=["c%d" % c for c in range(k)])
    if kind == "textframe":
        return pd.DataFrame([[str(c) for c in r] for r in v], columns=["c%d" % c for c in range(k)])
    if kind == "short":
        return v[:-1] if pos != "first" else v[1:]
    if kind == "long":
        return np.vstack([v, v[:1]])
    if kind == "half":
        return v[: n // 2]
    if kind == "transposed":
        return v.T.copy()
    if kind == "list":
        return v.tolist()
    if kind == "3d":
        return v[:, :, None]
    raise KeyError(kind)


KINDS = ["nan", "inf", "-inf", "bool", "text", "object", "nanframe", "boolframe", "textframe", "short", "long", "half", "transposed", "list", "3d"]
POS = ["first", "mid", "last"]


def ring(n):
    A = np.zeros((n, n))
    for i in range(n):
        A[i, (i + 1) % n] = A[i, (i - 1) % n] = 1
    w = worlds.from_adj(A)
    w.transform = "r"
    return w


def bad_w(w, kind):
    n = w.n
    if kind == "smaller":
        return ring(n - 1)
    if kind == "larger":
        return ring(n + 1)
    if kind == "half":
        return ring(n // 2)
    if kind.startswith("diag"):
        A = w.full()[0]
        if kind == "diag1":
            A[n // 2, n // 2] = 0.5
        elif kind == "diagneg":
            A[0, 0] = -0.25
        elif kind == "diagmix":
            A[1, 1], A[3, 3] = 0.5, -0.5
        elif kind == "diaglast":
            A[n - 1, n - 1] = 1e-3
        else:
            A = A + np.eye(n)
        return worlds.from_adj(A)
    if kind == "kernel":
        return worlds.kernel_w(allest.A, allest.B)
    if kind == "none":
        return None
    if kind == "string":
        return "queen.gal"
    if kind == "list":
        return w.full()[0].tolist()
    if kind == "rect":
        return w.full()[0][:, :-1]
    if kind == "array_small":
        return w.full()[0][:-1, :-1]
    if kind == "array_diag":
        return w.full()[0] + np.eye(n)
    raise KeyError(kind)


WKINDS = ["smaller", "larger", "half", "diag1", "diagneg", "diagmix", "diaglast", "diagall", "kernel", "none", "string", "list", "rect", "array_small", "array_diag"]


def bad_gwk(w, n, kind):
    k = worlds.kernel_w(allest.A, allest.B)
    if kind == "none":
        return None
    if kind == "contiguity":
        return w
    if kind == "diag0":
        return weights.fill_diagonal(k, 0.0)
    if kind == "kerneldiag":
        k = worlds.kernel_w(allest.A, allest.B)
        for i in k.id_order:
            k.weights[i] = [2.0 * v if j == i else v for j, v in zip(k.neighbors[i], k.weights[i])]
        k._reset()
        return k
    if kind == "kernelhalf":
        for i in k.id_order[:3]:
            k.weights[i] = [0.5 if j == i else v for j, v in zip(k.neighbors[i], k.weights[i])]
        k._reset()
        return k
    if kind == "negative":
        for i in k.id_order[-1:]:
            k.weights[i] = [-0.1 if j != i else v for j, v in zip(k.neighbors[i], k.weights[i])]
        k._reset()
        return k
    if kind == "above":
        for i in k.id_order[-1:]:
            k.weights[i] = [1.1 if j != i else v for j, v in zip(k.neighbors[i], k.weights[i])]
        k._reset()
        return k
    if kind == "small":
        return worlds.kernel_w(allest.A, allest.B - 1)
    if kind == "string":
        return "kernel"
    raise KeyError(kind)


def regs_bad(r, k, kind):
    n = len(r)
    if kind == "single":
        return [1] * n
    if kind == "short":
        return list(r)[:-1]
    if kind == "long":
        return list(r) + [r[0]]
    if kind == "toomany":           # two observations per regime
        return [i // 2 for i in range(n)]
    if kind == "alldiff":
        return list(range(n))
    if kind == "none":
        return None
    if kind == "string":
        return "zone"
    if kind == "tuple":
        return 5
    raise KeyError(kind)


RKINDS = ["single", "short", "long", "toomany", "alldiff", "string", "tuple"]
OPTS = {"robust": ["foo", "HAC2", "hac"], "method": ["foo", "Full2"], "A1": ["foo"], "optim": ["foo"], "scalem": ["foo"], "spat_impacts": ["foo", ["simple", "foo"]], "constant_regi": ["foo"],
        "slx_vars": [[True], [True, False, True]], "cols2regi": [[True], [True] * 9], "estimator": ["foo"], "distance_metric": ["foo"]}


def cases(tier):
    out = []
    for key in allest.CONF:
        out.append((key, (key, tier)))
    for fn in ("sur_dictxy", "sur_dictZ"):
        out.append(("long/" + fn, ("long", fn)))
    return out


def longformat(fn, T):
    """a long system in which one row is repeated or missing, at every place"""
    import spreg
    n, t = 5, 3

    def call(d):
        if fn == "sur_dictxy":
            return spreg.sur_dictxy(d, ["y"], [["a", "b"]], space_id=["sid"], time_id=["tid"])
        return spreg.sur_dictZ(d, [["a", "b"]], form="plm", space_id=["sid"], time_id=["tid"])
    for order in ("period", "unit"):
        rows = [(s, 1990 + p, 1.0 * s + p, s * 2.0, p * 3.0 + s * s) for p in range(t) for s in range(n)]
        if order == "unit":
            rows.sort()
        frame = lambda rr: pd.DataFrame(rr, columns=["sid", "tid", "y", "a", "b"])
        call(frame(rows))
        T.call()
        for i in range(n * t):
            T.state(order, i)
            T.call(n * t + 2)
            T.raises("%s/missing/%d" % (order, i), lambda: call(frame(rows[:i] + rows[i + 1:])))
            same = rows[i][:2] + (9.0, 8.0, 7.0)
            T.raises("%s/repeated/%d" % (order, i), lambda: call(frame(rows[:i + 1] + [same] + rows[i + 1:])))
            for j in range(n * t):                      # one observation under the identifiers of another
                if j != i:
                    T.raises("%s/misplaced/%d,%d" % (order, i, j), lambda: call(frame(rows[:i] + [rows[j][:2] + rows[i][2:]] + rows[i + 1:])))


def run(case, T):
    if case[0] == "long":
        return longformat(case[1], T)
    key, tier = case
    fn, args, opt = allest.CONF[key]
    import inspect
    f = allest.fn(fn)
    sig = inspect.signature(f.__init__ if inspect.isclass(f) else f).parameters
    f0, kw0 = allest.make(key)
    try:
        said = talk(f0, kw0)[1]
    except np.linalg.LinAlgError:
        if fn != "Panel_RE_Error":
            raise
        T.state("base")
        return
    T.call()

    def bad(name, change, announced=False):
        f, kw = allest.make(key)
        change(kw)
        T.state(name)
        T.call()
        if announced:
            try:
                said2 = talk(f, kw)[1]
            except Exception:
                return T.true(name, True)
            T.true(name, bool(said2 - said), "neither refused nor announced")
        else:
            T.raises(name, lambda: quiet(f, kw))

    for a in args:
        p = allest.PARAM.get(a, a)
        if a in DATA:
            for kind in KINDS:
                for pos in (POS if kind in ("nan", "inf", "-inf", "object", "nanframe", "short") or tier == "thorough" else ["mid"]):
                    if skip(key, a, kind):
                        continue
                    if DATA[a] == 1:
                        bad("%s/%s/%s" % (p, kind, pos), lambda kw: kw.__setitem__(p, spoil(kw[p], kind, pos)))
                    else:
                        for r in range(allest.SUR_E):
                            def ch(kw):
                                d = dict(kw[p])
                                d[r] = spoil(d[r], kind, pos)
                                kw[p] = d
                            bad("%s%d/%s/%s" % (p, r, kind, pos), ch)
            if DATA[a] == 1 and tier == "thorough":         # a missing value in every single position
                n, k = np.asarray(kw0[p]).shape
                for i in range(n):
                    for j in range(k):
                        bad("%s/nan/%d,%d" % (p, i, j), lambda kw: kw.__setitem__(p, spoil(kw[p], "nan", (i, j))))
            if DATA[a] == 1 and not skip(key, a, "none"):
                bad(p + "/none", lambda kw: kw.__setitem__(p, None))
        elif a == "w":
            for kind in WKINDS:
                if skip(key, "w", kind):
                    continue
                bad("w/" + kind, lambda kw: kw.__setitem__("w", bad_w(kw["w"], kind)))
        elif a == "gwk":
            for kind in ("none", "contiguity", "diag0", "kerneldiag", "kernelhalf", "negative", "above", "small", "string"):
                bad("gwk/" + kind, lambda kw: kw.__setitem__("gwk", bad_gwk(worlds.make_w(allest.WK), allest.N, kind)))
        elif a == "regimes":
            for kind in RKINDS:
                bad("regimes/" + kind, lambda kw: kw.__setitem__("regimes", regs_bad(kw["regimes"], 3, kind)))
    for a in ("x", "px", "wx", "yend", "q"):                # a list of names of another length than the columns
        o = "name_" + allest.PARAM.get(a, a).replace("px", "x").replace("wx", "x")
        if a not in args or not (o in sig or any(v.kind == v.VAR_KEYWORD for v in sig.values())):
            continue
        k = np.asarray(kw0[allest.PARAM.get(a, a)]).shape[1]
        k1 = k // allest.T if a == "wx" else k
        for m in range(1, k + 4):
            if m in (k, k1):
                continue
            bad("%s/%d" % (o, m), lambda kw: kw.__setitem__(o, ["v%d" % j for j in range(m)]))
    if "px" in args or "wx" in args:                        # formats of a panel
        n, t = kw0["w"].n, allest.T
        long_ = "px" in args
        y0, x0 = np.asarray(kw0["y"], float), np.asarray(kw0["x"], float)
        wy, wx = (allest.wide(y0, n, t), allest.wide(x0, n, t)) if long_ else (y0, x0)
        ly = wy.T.reshape(-1, 1)
        lx = np.hstack([wx[:, j * t:(j + 1) * t].T.reshape(-1, 1) for j in range(wx.shape[1] // t)])

        def form(name, y, x):
            bad("panel/" + name, lambda kw: kw.update(y=y, x=x))
        more = np.cos(np.arange(1.0, n * t + 1)).reshape(n, t)
        for c in range(1, t):
            for pos in range(wx.shape[1] + 1):
                form("wide/extra%d/%d" % (c, pos), wy, np.hstack([wx[:, :pos], more[:, :c], wx[:, pos:]]))
            form("wide/fewer%d" % c, wy, wx[:, :-c])
            form("wide/less%d" % c, wy, wx[:, :c])
        form("wide/missing_periods", np.hstack([wy, wy[:, :1] + more[:, :1]]), wx)
        form("wide_y/long_x", wy, lx)
        form("long_y/wide_x", ly, wx)
        form("wide/short_x", wy, wx[:-1])
        form("wide/long_x", wy, np.vstack([wx, wx[:1]]))
        form("wide/short_both", wy[:-1], wx[:-1])
        form("wide/two_fewer", wy[:-2], wx[:-2])
        form("wide/double", np.vstack([wy, wy]), np.vstack([wx, wx + more[:, :1]]))
        for c in range(1, n):
            form("long/drop%d" % c, ly[:-c], lx[:-c])
        form("transposed", wy.T.copy(), wx.T.copy())
    for o, vals in OPTS.items():
        if o not in sig and not (o in kw0):
            continue
        for v in vals:
            if optskip(key, fn, o, v, sig, kw0):
                continue
            bad("option/%s=%s" % (o, v), lambda kw: kw.__setitem__(o, v), announced=o in ANNOUNCED)


def skip(key, a, kind):
    fn, args, opt = allest.CONF[key]
    if a == "yend" and kind == "none":          # optional in the models with a spatial lag
        return "Lag" in fn or "Combo" in fn or key == "GMM_Error/combo"
    if a == "w" and kind == "kernel":           # kernel weights are valid in SLX models of first order
        return key.startswith("OLS") and opt.get("slx_lags") == 1
    if a == "w" and kind == "half":             # a long panel of n/2 places and twice the periods
        return "py" in args
    return False


def optskip(key, fn, o, v, sig, kw):
    if o == "robust" and v == "hac" and "gwk" in kw:
        return True             # valid
    if o == "slx_vars" and not kw.get("slx_lags"):
        return True             # not used
    return False
