"""P14: equivalent input forms give identical results."""
import contextlib, io, itertools, warnings
import numpy as np
import pandas as pd
from libpysal import weights, graph
from scipy import sparse as sp
import allest, deep, worlds

META = {"rule": "a state is (estimator configuration, form of every input argument, names given or taken from the pandas labels); the complete result graph is compared with the one of the estimation from two-dimensional float arrays, lists, a W object and explicit names",
        "assumptions": ["re-encoding weights may reorder a row's neighbours, so values are compared to 1e-7 relative (1e-5 for searched parameters)"]}

ROLE = {"y": "y", "ybin": "y", "yns": "y", "py": "y", "wy": "wy", "x": "x", "px": "x", "wx": "wx", "yend": "e", "q": "q", "w": "w", "regimes": "r", "coords": "c"}
FORMS = {
    "y": ["2d", "1d", "series", "frame", "fortran", "strided", "int", "iseries"],
    "wy": ["2d", "frame", "fortran", "int"],
    "x": ["2d", "frame", "fortran", "strided", "int", "iframe", "mixframe", "x1", "x1_1d", "x1_series", "x1_frame", "csr"],
    "wx": ["2d", "frame", "fortran", "int"],
    "e": ["2d", "1d", "series", "frame", "fortran", "int", "iseries"],
    "q": ["2d", "frame", "fortran", "int", "q1", "q1_1d", "q1_series", "csr"],
    "w": ["W", "graph", "dense", "csr", "csc", "coo"],
    "r": ["list", "array", "series", "farray", "str", "sarray", "sseries", "objarray"],
    "c": ["2d", "frame", "fortran", "geo"],
}
SKIP_FORM = ()
PANDAS = {"y": "series", "x": "frame", "e": "series", "q": "frame", "r": "series", "wy": "frame", "wx": "frame"}
LABEL = {"y": "resp", "x": ["inc", "hov"], "e": ["price"], "q": ["za", "zb"], "r": "zone"}
SEARCHED = ("GM_", "GMM", "ML_", "Panel_", "SUR", "NSLX", "Probit")


def REGIMES(key):
    """configurations which use the transformation of the weights object (restricted weights, symmetrised weights)"""
    return key.endswith("/ord") or "Endog_Regimes" in key or "regimes" in allest.CONF[key][1]


def optional(key, forms):
    """forms a configuration does not document: it may refuse them, not estimate something else"""
    fn, args, opt = allest.CONF[key]
    panel = any(a in args for a in ("py", "wy"))
    if panel and forms.get("w") in ("dense", "csr", "csc", "coo"):
        return True
    if any(forms.get(a) == "csr" for a in ("x", "q", "yend")):
        return True
    if fn == "GM_KKP":
        return any("1d" in v or "series" in v for v in forms.values())
    return False


def quiet(f, kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(**kw)


def isys(key):
    return "sy" in allest.CONF[key][1]


def roles(key):
    """argument -> role"""
    return {allest.PARAM.get(a, a): ROLE[a] for a in allest.CONF[key][1] if a in ROLE}


def ints(v):
    return np.round(np.asarray(v, float) * 40.0)


def labels(arg, role, v, key):
    if role in ("wy", "wx"):
        base = ["resp"] if role == "wy" else ["inc", "hov"]
        return [b + str(t + 1) for b in base for t in range(allest.T)]
    return LABEL[role]


def shuffled(n):
    """labels of rows that were subset and sorted by something else"""
    return np.random.default_rng(n).permutation(np.arange(3, n + 3))


def enc(v, role, form, lab):
    """value v (canonical) in the given form"""
    if role == "w":
        if form == "W":
            return v
        if form == "graph":
            return graph.Graph.from_W(v)
        m = v.sparse
        return {"dense": lambda: m.toarray(), "csr": lambda: sp.csr_matrix(m), "csc": lambda: sp.csc_matrix(m), "coo": lambda: sp.coo_matrix(m)}[form]()
    if role == "r":
        v = list(v)
        s = ["r%s" % i for i in v]
        return {"list": v, "array": np.array(v), "series": pd.Series(v, name=lab, index=shuffled(len(v))), "farray": np.array(v, float),
                "str": s, "sarray": np.array(s), "sseries": pd.Series(s, name=lab, index=shuffled(len(s))), "objarray": np.array(v, dtype=object)}[form]
    if role == "c":
        if form == "geo":
            import geopandas
            return geopandas.GeoSeries(geopandas.points_from_xy(v[:, 0], v[:, 1]), name="unknown")
        return {"2d": lambda: v, "frame": lambda: pd.DataFrame(v, columns=["cx", "cy"], index=shuffled(len(v))), "fortran": lambda: np.asfortranarray(v)}[form]()
    if form.startswith(("x1", "q1")):
        v, lab = v[:, [0]], lab[:1]
        form = form[3:] or "2d"
    if form == "2d":
        return v
    if form == "1d":
        return v.ravel()
    if form == "series":
        return pd.Series(v.ravel(), name=lab if isinstance(lab, str) else lab[0], index=shuffled(len(v)))
    if form == "frame":
        return pd.DataFrame(v, columns=[lab] if isinstance(lab, str) else lab, index=shuffled(len(v)))
    if form == "fortran":
        return np.asfortranarray(v)
    if form == "strided":
        big = np.zeros((v.shape[0] * 2, v.shape[1] * 3))
        big[::2, 1::3] = v
        return big[::2, 1::3]
    if form == "csr":
        return sp.csr_matrix(v)
    if form == "int":
        return v.astype(np.int64)
    if form == "iseries":
        return pd.Series(v.ravel().astype(int), name=lab if isinstance(lab, str) else lab[0], index=shuffled(len(v)))
    if form == "iframe":
        return pd.DataFrame(v.astype(int), columns=lab, index=shuffled(len(v)))
    if form == "mixframe":
        d = pd.DataFrame(v, columns=lab, index=shuffled(len(v)))
        d[lab[0]] = d[lab[0]].astype(int)
        return d
    raise KeyError(form)


def binary(key, r):
    return key.startswith("Probit") and r == "y"


def cases(tier):
    out = []
    for key in allest.CONF:
        if isys(key):
            continue
        rl = roles(key)
        opts = []
        for a, r in rl.items():
            for f in FORMS[r][1:]:
                opts.append({a: f})
        # all pandas; every pair of (y,x,e,q) deviations with pandas and 1d
        opts.append({a: PANDAS[r] for a, r in rl.items() if r in PANDAS})
        opts.append({a: {"y": "iseries", "e": "iseries", "x": "iframe"}.get(r, PANDAS[r]) for a, r in rl.items() if r in PANDAS})
        opts.append({a: {"y": "1d", "e": "1d", "w": "graph", "r": "array"}.get(r, FORMS[r][0]) for a, r in rl.items()})
        opts.append({a: {"y": "frame", "e": "frame", "x": "frame", "q": "frame", "w": "csr", "r": "sseries"}.get(r, FORMS[r][0]) for a, r in rl.items()})
        if tier == "thorough":
            ks = list(rl)
            full = [dict(zip(ks, c)) for c in itertools.product(*[FORMS[rl[a]] for a in ks])]
            pair = [o for o in full if 2 <= sum(o[a] != FORMS[rl[a]][0] for a in ks) <= 2]
            opts += pair
            opts += [o for o in full if sum(o[a] != FORMS[rl[a]][0] for a in ks) >= 3][:: max(1, len(full) // 60)]
        out.append((key, (key, opts)))
    for i, wk in enumerate(["isl:6x8", "odd:6x8", "rooks:6x8", "knn:6x8"]):
        for key in ("OLS", "GM_Lag", "GM_Error", "ML_Lag/lu", "ML_Error", "GM_Combo_Het", "GM_Lag_Regimes", "ML_ErrorFE", "GM_ErrorRE"):
            if wk.startswith("isl") and key.startswith("ML_Lag"):
                pass
            out.append(("%s/%s" % (key, wk), (key, [{"w": f} for f in FORMS["w"][1:]], wk)))
    out.append(("surdict", ("surdict",)))
    return out


def build(key, forms, named, wk=allest.WK, reg_labels=False):
    f, kw = allest.make(key, wk=wk)
    rl = roles(key)
    isint = {a: ("int" in v or v.startswith("i") or v == "mixframe") for a, v in forms.items()}
    for a, r in rl.items():
        fm = forms.get(a, FORMS[r][0])
        v = kw[a]
        if isint.get(a) and not binary(key, r) and r not in ("w", "r", "c"):
            v = ints(v)
        canonical = v if r not in ("w", "r", "c") else v
        lab = labels(a, r, v, key) if r in LABEL or r in ("wy", "wx") else None
        kw[a] = enc(canonical, r, fm, lab)
        pandas = isinstance(kw[a], (pd.Series, pd.DataFrame))
        if r == "c":
            kw["name_coords"] = ["cx", "cy"]
        nm = "name_" + a
        if not named and nm in kw and pandas:
            del kw[nm]
        if nm in kw and fm.startswith(("x1", "q1")):
            kw[nm] = kw[nm][:1]
    return f, kw


def reference(key, forms, wk):
    """canonical equivalent: same numbers, two-dimensional floats"""
    f, kw = allest.make(key, wk=wk)
    rl = roles(key)
    for a, r in rl.items():
        fm = forms.get(a, FORMS[r][0])
        v = kw[a]
        if ("int" in fm or fm.startswith("i") or fm == "mixframe") and not binary(key, r) and r not in ("w", "r", "c"):
            v = ints(v)
        if fm.startswith(("x1", "q1")):
            v = v[:, [0]]
            kw["name_" + a] = kw["name_" + a][:1]
        if r == "c":
            kw["name_coords"] = ["cx", "cy"]
        if r == "w" and fm != "W" and REGIMES(key):
            v = worlds.from_adj(v.sparse.toarray(), list(v.id_order))   # the transformation of the weights is not part of the other forms
        if r == "r" and fm in ("str", "sarray", "sseries"):
            v = ["r%s" % i for i in v]
        if r == "r" and fm == "farray":
            v = [float(i) for i in v]
        kw[a] = v
    return f, kw


def run(case, T):
    if case[0] == "surdict":
        return surdict(T)
    key, opts = case[0], case[1]
    wk = case[2] if len(case) > 2 else allest.WK
    refs = {}
    conf = allest.CONF[key]
    for forms in opts:
        if adjust(key, forms) is None:
            continue
        lab = ",".join("%s=%s" % i for i in sorted(forms.items()))
        rk = tuple(sorted((a, v) for a, v in forms.items()))
        try:
            f, kw = reference(key, forms, wk)
            m0 = quiet(f, kw)
        except Exception as e:
            m0 = e
        for named in (True, False):
            f, kw = build(key, forms, named, wk)
            if not named and not any(isinstance(v, (pd.Series, pd.DataFrame)) for v in kw.values()):
                continue
            if not named and "geo" in forms.values():
                continue
            T.state(lab, named); T.call()
            nm = "%s/%s" % (lab, "names" if named else "labels")
            try:
                m1 = quiet(f, kw)
            except Exception as e:
                if isinstance(m0, Exception):
                    continue
                if optional(key, forms):
                    continue
                T.fail(nm + "/refused", "%s: %s" % (type(e).__name__, str(e)[:300]))
                continue
            if isinstance(m0, Exception):
                T.fail(nm + "/accepted", "canonical form raises %s: %s" % (type(m0).__name__, str(m0)[:200]))
                continue
            A, B = deep.freeze(m0), deep.freeze(m1)
            rt = 2e-5 if key.startswith(SEARCHED) else 1e-7
            d = deep.diff(A, B, rtol=rt, atol=1e-8 if rt < 1e-6 else 1e-7)
            d = [i for i in d if not ignorable(key, i, forms)]
            T.true(nm, not d, "; ".join("%s: %s" % i for i in d[:4]))


def ignorable(key, d, forms):
    p = d[0]
    if "summary" in p and key.startswith(SEARCHED):
        return True                 # last printed digit of searched parameters
    if forms.get("w", "W") != "W" and p.endswith(".w"):
        return True                 # transformation and type of the weights kept
    if p in (".nit", ".message"):
        return True                 # path of the optimiser
    if "Endog_Regimes" in key and (p.startswith("._trace") and p.endswith("[1]")):
        return True                 # orientation of a spanning-tree edge
    return False


def adjust(key, forms):
    """forms not meaningful for a configuration"""
    opt = allest.CONF[key][2]
    if key.startswith("Probit") and forms.get("y") == "int":
        pass
    if any(v.startswith("x1") for v in forms.values()) and (isinstance(opt.get("slx_vars"), list) or isinstance(opt.get("cols2regi"), list)):
        return None
    return forms


def surdict(T):
    import spreg
    wd, y, X = allest.panel()
    n, t = wd.n, allest.T
    Y, XX = y.reshape(t, n).T, [X[:, [j]].reshape(t, n).T for j in range(2)]
    wide = pd.DataFrame({**{"y%d" % i: Y[:, i] for i in range(t)}, **{"a%d" % i: XX[0][:, i] for i in range(t)}, **{"b%d" % i: XX[1][:, i] for i in range(t)}})
    ref = spreg.sur_dictxy(wide, ["y%d" % i for i in range(t)], [["a%d" % i, "b%d" % i] for i in range(t)])
    refZ = [spreg.sur_dictZ(wide, [["a%d" % i, "b%d" % i] for i in range(t)], const=c) for c in (False, True)]
    for i in range(t):
        for c in (0, 1):
            T.eq("Z/wide/%d/%d" % (c, i), refZ[c][1][i], (["Constant_%d" % (i + 1)] if c else []) + ["a%d" % i, "b%d" % i])
        T.eq("x/wide/%d" % i, ref[3][i], ["Constant_%d" % (i + 1), "a%d" % i, "b%d" % i])
    rows = [(s, 1990 + p, Y[s, p], XX[0][s, p], XX[1][s, p]) for p in range(t) for s in range(n)]
    rs = np.random.RandomState(0)
    for kind in ("period", "unit", "strspace", "strtime", "lastfirst"):
        rr = list(rows)
        if kind == "unit":
            rr.sort(key=lambda r: (r[0], r[1]))
        if kind == "lastfirst":        # periods in reverse order, units in the same order in every period
            rr.sort(key=lambda r: (-r[1], r[0]))
        d = pd.DataFrame(rr, columns=["sid", "tid", "y", "a", "b"])
        if kind == "strspace":
            d["sid"] = ["s%d" % i for i in d["sid"]]
        if kind == "strtime":
            d["tid"] = [str(i) for i in d["tid"]]
        T.state(kind); T.call(3)
        by, bx, ny, nx = spreg.sur_dictxy(d, ["y"], [["a", "b"]], space_id=["sid"], time_id=["tid"])
        for r in range(t):
            T.close("%s/y%d" % (kind, r), by[r], ref[0][r], rtol=0, atol=0, shape=True)
            T.close("%s/x%d" % (kind, r), bx[r], ref[1][r], rtol=0, atol=0, shape=True)
            T.eq("%s/ny%d" % (kind, r), ny[r], "y_%d" % (1990 + r))
            T.eq("%s/nx%d" % (kind, r), nx[r], ["%s_%d" % (c, 1990 + r) for c in ("Constant", "a", "b")])
        for c in (False, True):
            bz, nz = spreg.sur_dictZ(d, [["a", "b"]], form="plm", const=c, space_id=["sid"], time_id=["tid"])
            for r in range(t):
                T.close("Z/%s/%s/%d" % (kind, c, r), bz[r], refZ[c][0][r], rtol=0, atol=0, shape=True)
                T.eq("Z/%s/%s/n%d" % (kind, c, r), nz[r], ["%s_%d" % (i, 1990 + r) for i in (["Constant"] if c else []) + ["a", "b"]])
    # more units, in no particular order, and period labels whose text order is not their order
    n2, t2 = 15, 5
    ids = [(7 * i) % 16 + (0 if i % 2 else 100) for i in range(n2)]
    V = {c: np.arange(n2 * t2).reshape(n2, t2) * 1.0 + 1000 * (j + 1) for j, c in enumerate("yab")}
    for kind in ("period", "unit", "mixed"):
      for lab in ("num", "text"):
        tl = (lambda p: 8 + p) if lab == "num" else (lambda p: "q%d" % (5 + p))
        rr = [(ids[s], 8 + p, *(V[c][s, p] for c in "yab")) for p in range(t2) for s in range(n2)]
        if kind == "unit":
            rr = [rr[p * n2 + s] for s in range(n2) for p in range(t2)]
        if kind == "mixed":             # first period in the order of the weights, others in another one
            rr = rr[:n2] + sorted(rr[n2:], key=lambda r: (r[1] * 5 % 7, r[0] * 11 % 13))
        for strid in (False, True):
            d = pd.DataFrame(rr, columns=["sid", "tid", "y", "a", "b"])
            if strid:
                d["sid"] = ["s%d" % i for i in d["sid"]]
            if lab == "text":
                d["tid"] = [tl(i - 8) for i in d["tid"]]
            T.state("big", kind, strid, lab); T.call(2)
            by, bx, ny, nx = spreg.sur_dictxy(d, ["y"], [["a", "b"]], space_id=["sid"], time_id=["tid"])
            bz, nz = spreg.sur_dictZ(d, [["a", "b"]], form="plm", space_id=["sid"], time_id=["tid"])
            for r in range(t2):
                k = "big/%s/%s/%s/%d/" % (kind, strid, lab, r)
                Z = np.column_stack([V["a"][:, r], V["b"][:, r]])
                T.close(k + "y", by[r], V["y"][:, [r]], rtol=0, atol=0, shape=True)
                T.close(k + "x", bx[r], np.column_stack([np.ones(n2), Z]), rtol=0, atol=0, shape=True)
                T.close(k + "z", bz[r], Z, rtol=0, atol=0, shape=True)
                T.eq(k + "names", (ny[r], nx[r], nz[r]), ("y_%s" % tl(r), ["%s_%s" % (c, tl(r)) for c in ("Constant", "a", "b")], ["%s_%s" % (c, tl(r)) for c in "ab"]))
    d = pd.DataFrame(rows, columns=["sid", "tid", "y", "a", "b"])
    # list of columns through a frame equals the arrays for every estimator of the family
    for fname in ("SUR", "SURerrorGM", "SURerrorML"):
        f = getattr(spreg, fname)
        kw = {} if fname == "SUR" else {"w": wd.w}
        m0 = quiet(f, dict(bigy=ref[0], bigX=ref[1], name_bigy=ref[2], name_bigX=ref[3], **kw))
        by, bx, ny, nx = spreg.sur_dictxy(d, ["y"], [["a", "b"]], space_id=["sid"], time_id=["tid"])
        m1 = quiet(f, dict(bigy=by, bigX=bx, name_bigy=ref[2], name_bigX=ref[3], **kw))
        T.state(fname); T.call(2)
        dd = [i for i in deep.diff(deep.freeze(m0), deep.freeze(m1), rtol=1e-4, atol=1e-4) if "summary" not in i[0]]
        T.true("%s" % fname, not dd, str(dd[:3]))
