"""P32: specification searches = their decision rules, on the full product of outcomes of the diagnostics they consult (stubbed at the
estimator classes), and on real data for every interval of the significance threshold."""
import contextlib
import inspect
import io
import itertools
import warnings
import numpy as np
import pandas as pd
import spreg
from spreg import spsearch, diagnostics_sp
import deep
import worlds
from p26 import quiet

META = {"rule": "decision tables: a state is (search, p-value level of every diagnostic, set of models which cannot be estimated); ALL combinations of levels and orders. Real data: a state is (search, data set, interval of p_value between two p-values of the data)",
        "assumptions": ["no exact equality of a p-value and the threshold, or of two compared p-values"]}
A = 0.05
SEARCH = ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm")
TITLE = dict(stge_classic="STGE-Classic", stge_kb="STGE-KB", stge_pre="STGE-Pre", gets_gns="GETS-GNS", gets_sdm="GETS-SDM")
KINDS = ("OLS", "SLX", "LAG", "SDM", "ERROR", "SARSAR", "SLX-ERR", "GNS")


# ------------------------------------------------------------- decision rules
def classic(d, a, slx, names):
    """d: p-values of the (OLS or SLX) model; names: the four models of this branch"""
    none, lag, err, both = names
    e, l, re, rl = d["e"], d["l"], d["re"], d["rl"]
    if e >= a and l >= a:
        return none, ""
    if e >= a:
        return lag, ""
    if l >= a:
        return err, ""
    if (rl < a) != (re < a):
        return (lag, "r") if rl < a else (err, "r")
    if rl < a and lag not in d["fail"] and d["ak"] <= a:
        return both, ""
    return (lag if rl <= re else err), ("_br" if rl < a else "_nr")


def rule(name, P, a):
    """(model, suffix) or None when a model consulted cannot be estimated"""
    F = P["fail"]
    if name == "stge_classic":
        return classic(dict(P["OLS"], ak=P["ak"].get("LAG"), fail=F), a, 0, ("OLS", "LAG", "ERROR", "SARSAR"))
    if name == "stge_pre":
        o = P["OLS"]
        if o["wx"] < a and o["rwx"] < a:
            r = classic(dict(P["SLX"], ak=P["ak"].get("SDM"), fail=F), a, 1, ("SLX", "SDM", "SLX-ERR", "GNS"))
        else:
            r = classic(dict(o, ak=P["ak"].get("LAG"), fail=F), a, 0, ("OLS", "LAG", "ERROR", "SARSAR"))
        return r[0], ""
    if name == "stge_kb":
        o = P["OLS"]
        if o["sd"] >= a:
            return "OLS", ""
        return {(1, 1): "SDM", (0, 1): "LAG", (1, 0): "SLX", (0, 0): "OLS"}[(int(o["rwx"] < a), int(o["rdl"] < a))], ""
    if name == "gets_gns":
        if "GNS" in F:
            return None
        z = P["z"]["GNS"]
        if max(z) < a:
            return "GNS", ""
        if min(z) >= a:
            return "OLS", ""
        worst = z.index(max(z))
        step = {len(z) - 1: "SDM", len(z) - 2: "SLX-ERR"}.get(worst, "SARSAR")
        if step in F:
            return None
        z = P["z"][step]
        if max(z) < a:
            if step == "SDM" and P["cf"] >= a:
                return "ERROR", ""
            return step, ""
        if min(z) >= a:
            return "OLS", ""
        last = z.index(max(z)) == len(z) - 1
        return {"SDM": ("SLX", "LAG"), "SLX-ERR": ("SLX", "ERROR"), "SARSAR": ("LAG", "ERROR")}[step][0 if last else 1], ""
    if "SDM" in F:
        return None
    z = P["z"]["SDM"]
    if max(z) < a:
        if P["cf"] >= a:
            return "ERROR", ""
        return ("GNS" if P["ak"]["SDM"] < a else "SDM"), ""
    if min(z) >= a:
        return ("ERROR" if P["OLS"]["e"] < a else "OLS"), ""
    if z.index(max(z)) == len(z) - 1:
        return ("SLX-ERR" if P["SLX"]["e"] < a else "SLX"), ""
    if "LAG" in F:
        return None
    return ("SARSAR" if P["ak"]["LAG"] < a else "LAG"), ""


# ------------------------------------------------------------------- stubbing
LMATTR = {"e": ("lm_error", "lme"), "l": ("lm_lag", "lml"), "re": ("rlm_error", "rlme"), "rl": ("rlm_lag", "rlml"), "sarma": ("lm_sarma", "sarma"),
          "wx": ("lm_wx", "lmwx"), "rwx": ("rlm_wx", "rlmwx"), "rdl": ("rlm_durlag", "rlmdurlag"), "sd": ("lm_spdurbin", "lmspdurbin")}
CLS = {"OLS": spreg.OLS, "LAG": spreg.GM_Lag, "ERR": spreg.GMM_Error}
ORIG = {k: c.__init__ for k, c in CLS.items()}
SIG = {k: inspect.signature(f) for k, f in ORIG.items()}
LM0, AK0 = diagnostics_sp.LMtests.__init__, diagnostics_sp.AKtest.__init__


def kind_of(fam, a):
    s = int(a.get("slx_lags") or 0)
    if fam == "OLS":
        return ("OLS", "SLX")[s]
    if fam == "LAG":
        return ("LAG", "SDM")[s]
    if fam == "ERR":
        return {(0, 0): "ERROR", (1, 0): "SLX-ERR", (0, 1): "SARSAR", (1, 1): "GNS"}[(s, int(bool(a.get("add_wy"))))]


class Stub(object):
    """estimators whose diagnostics are the prescribed ones; everything else is that of real models of the same kind"""
    def __init__(self):
        self.cache, self.P, self.log = {}, None, []

    def __enter__(self):
        st = self

        def make(fam):
            def init(obj, *a, **k):
                args = dict(SIG[fam].bind(obj, *a, **k).arguments)
                args.pop("self", None)
                for v in [v for q, v in list(args.items()) if q == "kwargs"]:
                    args.update(v)
                kd = kind_of(fam, args)
                st.log.append((kd, args))
                if kd in st.P["fail"]:
                    raise Exception("parameters out of bounds")
                if kd not in st.cache:
                    real = object.__new__(type(obj))
                    st.P, keep = {"fail": (), "off": 1}, st.P
                    ORIG[fam](real, *a, **k)
                    st.P = keep
                    st.cache[kd] = dict(vars(real))
                obj.__dict__.update(st.cache[kd])
                obj._mc_kind = kd
                if kd in st.P["z"]:
                    old = list(obj.z_stat)
                    z = st.P["z"][kd]
                    obj.z_stat = old[:-len(z)] + [(9.9, v) for v in z] if len(old) == 1 + 2 + len(z) else [None] * 0 + old
                    assert len(old) == 3 + len(z), (kd, len(old), len(z))
                if fam == "LAG":
                    obj.cfh_test = (1.0, st.P["cf"])
                if fam == "OLS":
                    for key, v in st.P.get(kd, {}).items():
                        setattr(obj, LMATTR[key][0], (1.0, v))
            return init

        def lm(obj, ols, w, tests=["all"]):
            kd = getattr(ols, "_mc_kind", None)
            if st.P.get("off") or kd is None:
                return LM0(obj, ols, w, tests)
            if ("lm", kd) not in st.cache:
                r = object.__new__(diagnostics_sp.LMtests)
                LM0(r, ols, w, tests)
                st.cache[("lm", kd)] = dict(vars(r))
            obj.__dict__.update(st.cache[("lm", kd)])
            for key, v in st.P.get(kd, {}).items():
                setattr(obj, LMATTR[key][1], (1.0, v))

        def ak(obj, iv, w, case="nosp"):
            kd = getattr(iv, "_mc_kind", None)
            if st.P.get("off") or kd is None:
                return AK0(obj, iv, w, case)
            obj.mi, obj.ak, obj.p = 0.1, 1.0, st.P["ak"][kd]
        for fam, c in CLS.items():
            c.__init__ = make(fam)
        diagnostics_sp.LMtests.__init__ = lm
        diagnostics_sp.AKtest.__init__ = ak
        return self

    def __exit__(self, *a):
        for fam, c in CLS.items():
            c.__init__ = ORIG[fam]
        diagnostics_sp.LMtests.__init__ = LM0
        diagnostics_sp.AKtest.__init__ = AK0


def world(seed=0, k=2, lat="rook:5x5", par=(0.4, 0.3, 0.5)):
    w = worlds.make_w(lat)
    W = worlds.dense(w)
    n = len(W)
    g = np.random.default_rng(seed)
    x = g.normal(size=(n, k))
    r, l, gm = par
    e = np.linalg.solve(np.eye(n) - l * W, g.normal(size=(n, 1)))
    y = np.linalg.solve(np.eye(n) - r * W, 1 + x.sum(1, keepdims=True) + gm * (W @ x).sum(1, keepdims=True) + e)
    return y, x, w


LO, HI = (.001, .003, .007, .02), (.1, .2, .4, .8)


def levels(m, tier):
    """all sign patterns of m p-values with all orders of the insignificant ones"""
    for pat in itertools.product((0, 1), repeat=m):
        ns = [i for i in range(m) if pat[i]]
        for perm in itertools.permutations(range(len(ns))):
            v = [LO[i % 4] for i in range(m)]
            for i, q in zip(ns, perm):
                v[i] = HI[q]
            yield tuple(v)


PAIRS = [(x_, y_) for x_ in (.001, .02, .2, .8) for y_ in (.003, .01, .3, .6)]


def tables(name, part):
    """all prescriptions for one search (an iterator of P)"""
    none4 = (.5, .5)
    blank = lambda: {"fail": (), "ak": {"LAG": .5, "SDM": .5}, "cf": .5, "z": {}, "OLS": {}, "SLX": {}}
    if name in ("stge_classic", "stge_pre"):
        for wx, rwx in (itertools.product((.01, .3), repeat=2) if name == "stge_pre" else ((.01, .3),)):
            slx = name == "stge_pre" and wx < A and rwx < A
            for e, l in itertools.product((.004, .2), repeat=2):
                for rl, re in PAIRS:
                    for ak in (.03, .4):
                        for fail in ((), ("LAG", "SDM"), ("ERROR", "SLX-ERR"), ("SARSAR", "GNS"), ("LAG", "SDM", "ERROR", "SLX-ERR", "SARSAR", "GNS")):
                            P = blank()
                            d = dict(e=e, l=l, re=re, rl=rl, sarma=.5, wx=wx, rwx=rwx, rdl=.5, sd=.5)
                            o = dict(d, e=.2 if e < A else .004, l=.2 if l < A else .004, re=rl, rl=re)
                            P["SLX"], P["OLS"] = (d, dict(o)) if slx else (o, d)
                            P["ak"] = {"LAG": ak if not slx else .43 - ak, "SDM": ak if slx else .43 - ak}
                            P["fail"] = fail
                            yield P
    elif name == "stge_kb":
        for sd, rwx, rdl in itertools.product((.01, .049, .051, .4), repeat=3):
            for e in (.01, .4):
                for fail in ((), ("LAG",), ("SDM",)):
                    P = blank()
                    P["OLS"] = dict(e=e, l=e, re=e, rl=e, sarma=e, wx=.43 - e if e == .4 else e, rwx=rwx, rdl=rdl, sd=sd)
                    P["SLX"] = dict(P["OLS"], rwx=.43 - rwx if rwx < .43 else .01)
                    P["fail"] = fail
                    yield P
    elif name == "gets_gns":
        first = list(levels(4, None)); second = list(levels(3, None)); sar = list(levels(2, None))
        for i, z in enumerate(first):
            if i % 4 != part:
                continue
            w_ = z.index(max(z))
            mine = max(z) >= A > min(z)
            for z2 in (second if mine and w_ >= 2 else second[:1]):
                for z3 in (sar if mine and w_ < 2 else sar[i % len(sar):][:1]):
                    for cf in (.01, .3):
                        P = blank()
                        # models not consulted get the opposite outcomes
                        P["z"] = {"GNS": list(z), "SDM": list(z2), "SLX-ERR": list(z2), "SARSAR": list(z3)}
                        if mine:
                            for other in {3: ("SLX-ERR", "SARSAR"), 2: ("SDM", "SARSAR")}.get(w_, ("SDM", "SLX-ERR")):
                                q = P["z"][other]
                                P["z"][other] = [.9 if v < A else .002 for v in q]
                        P["cf"] = cf
                        for fail in ((), ("GNS",), ("SDM",), ("SLX-ERR",), ("SARSAR",), ("LAG", "ERROR")):
                            P2 = dict(P, fail=fail)
                            yield P2
    else:
        for z in levels(3, None):
            for cf in (.01, .3):
                for akl, aks in itertools.product((.01, .3), repeat=2):
                    for eo, es in itertools.product((.01, .3), repeat=2):
                        for fail in ((), ("SDM",), ("LAG",), ("ERROR",), ("SARSAR",), ("SLX-ERR",), ("GNS",)):
                            P = blank()
                            P["z"] = {"SDM": list(z)}
                            P["cf"], P["ak"] = cf, {"LAG": akl, "SDM": aks}
                            P["OLS"] = dict(e=eo, l=.5, re=.5, rl=.5); P["SLX"] = dict(e=es, l=.5, re=.5, rl=.5)
                            P["fail"] = fail
                            yield P


def cases(tier):
    out = []
    for s in SEARCH:
        for part in range(4 if s == "gets_gns" else 1):
            out.append(("table/%s/%d" % (s, part), ("table", s, part)))
    grid = [(r, l, g) for r in (0, .3, .6) for l in (0, .3, .6) for g in (0, .6)] if tier == "quick" else [(r, l, g) for r in (-.4, 0, .25, .5, .7) for l in (-.4, 0, .25, .5, .7) for g in (-.8, 0, .4, 1.2)]
    for s in SEARCH:
        for i, par in enumerate(grid):
            out.append(("real/%s/%s" % (s, "_".join("%g" % v for v in par)), ("real", s, par, i)))
        out.append(("options/%s" % s, ("options", s)))
    return out


def shown(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = f()
    return r, b.getvalue()


def named(got, kind, suffix, search):
    g = str(got).lower().strip()
    want = kind.lower()
    if search == "stge_classic":
        want += suffix
    return g == want


def direct(kind, y, x, w, w_lags=2, **k):
    hb = dict(hard_bound=True)
    nm = {q: v for q, v in k.items() if q != "robust"}
    if kind in ("OLS", "SLX"):
        return spreg.OLS(y, x, w=w, slx_lags=int(kind == "SLX"), spat_diag=True, **k)
    if kind in ("LAG", "SDM"):
        return spreg.GM_Lag(y, x, w=w, slx_lags=int(kind == "SDM"), w_lags=w_lags, **hb, **k)
    if kind in ("ERROR", "SLX-ERR"):
        return spreg.GMM_Error(y, x, w=w, slx_lags=int(kind == "SLX-ERR"), **hb, **nm)
    return spreg.GMM_Error(y, x, w=w, slx_lags=int(kind == "GNS"), add_wy=True, w_lags=w_lags, **hb, **nm)


def models(y, x, w, k, **kw):
    """all the candidate models and the p-values the searches consult"""
    M, P = {}, {"fail": [], "ak": {}, "z": {}, "OLS": {}, "SLX": {}, "cf": None}
    for kd in KINDS:
        try:
            M[kd] = quiet(lambda: direct(kd, y, x, w, **kw))
        except Exception:
            P["fail"].append(kd)
            M[kd] = None
            continue
        if kd in ("OLS", "SLX"):
            P[kd] = {q: float(getattr(M[kd], a[0])[1]) for q, a in LMATTR.items() if hasattr(M[kd], a[0])}
        elif kd in ("LAG", "SDM"):
            P["ak"][kd] = float(spreg.AKtest(M[kd], w, case="gen").p)
        if kd in ("SDM", "SLX-ERR", "SARSAR", "GNS"):
            P["z"][kd] = [float(v[1]) for v in M[kd].z_stat][1 + k:]
        if kd == "SDM":
            P["cf"] = float(M[kd].cfh_test[1])
    return M, P


def allp(P):
    v = [P["cf"]] if P["cf"] is not None else []
    v += list(P["ak"].values())
    for z in P["z"].values():
        v += z
    v += list(P["OLS"].values()) + list(P["SLX"].values())
    return sorted(set(v))


def judge(T, tag, name, P, a, out, printed, M=None, finmod=True, mprint=True):
    want = rule(name, P, a)
    res, fin = out
    if want is None:
        T.true(tag + "/not_estimable", "exception" in str(res).lower() and fin is False, "%r %r" % (res, fin))
        return None
    kind, suf = want
    if not finmod:
        T.true(tag + "/name", named(res, kind, suf, name), "got %r want %s%s" % (res, kind, suf))
        T.true(tag + "/no_model", fin is False, repr(fin))
        T.eq(tag + "/silent", printed, "")
        return kind
    if kind in P["fail"]:
        T.true(tag + "/final_not_estimable", "exception" in str(res).lower() and named(str(res).split(" -- ")[0], kind, suf, name) and fin is False, "got %r %r want %s%s" % (res, fin, kind, suf))
        if mprint:
            T.true(tag + "/printed", TITLE[name] in printed and str(res) in printed, printed[:200])
        return kind
    T.true(tag + "/name", named(res, kind, suf, name), "got %r want %s%s for %s" % (res, kind, suf, P))
    if mprint:
        T.true(tag + "/printed", TITLE[name] in printed and str(res) in printed and str(fin.summary) in printed, printed[:200])
    else:
        T.eq(tag + "/silent", printed, "")
    return kind


def run(p, T):
    if p[0] == "table":
        _, name, part = p
        y, x, w = world()
        f = getattr(spreg, name)
        with Stub() as st:
            for i, P in enumerate(tables(name, part)):
                st.P, st.log = P, []
                fm, mp = (i % 7 != 3), (i % 5 == 0)
                out, printed = shown(lambda: f(y, x, w, p_value=A, finmod=fm, mprint=mp))
                T.state(i)
                kind = judge(T, "t%d" % i, name, P, A, out, printed, finmod=fm, mprint=mp)
                if kind and fm and kind not in P["fail"]:
                    T.true("t%d/model" % i, getattr(out[1], "_mc_kind", None) == kind, "model %s want %s" % (getattr(out[1], "_mc_kind", out[1]), kind))
        T.call(i + 1)
        return
    if p[0] == "real":
        _, name, par, i = p
        y, x, w = world(seed=50 + i, k=1 + i % 3, lat=("rook:7x7", "queen:6x8", "knn:7x7")[i % 3], par=par)
        if i % 3 == 2:
            w.transform = "r"
        f = getattr(spreg, name)
        kw = dict(name_y="dep", name_x=["x%d" % j for j in range(x.shape[1])], name_w="ww", name_ds="ds")
        M, P = models(y, x, w, x.shape[1], **kw)
        ps = allp(P)
        grid = [ps[0] / 2] + [(u + v) / 2 for u, v in zip(ps, ps[1:]) if v - u > 1e-12 and v > 1e-9] + [(1 + ps[-1]) / 2]
        last = {}
        for a in grid:
            T.state(name, par, a)
            T.call()
            out, printed = shown(lambda: f(y, x, w, p_value=a, mprint=False, **{q: (list(v) if isinstance(v, list) else v) for q, v in kw.items()}))
            kind = judge(T, "p%.3g" % a, name, P, a, out, printed, mprint=False)
            if kind and out[1] is not False and kind not in last:
                last[kind] = 1
                d = deep.diff(deep.flatten(M[kind]), deep.flatten(out[1]), rtol=1e-9, atol=1e-12)
                T.true("p%.3g/estimate" % a, not d, "%s %s" % (kind, d[:3]))
                r2, printed = shown(lambda: f(y, x, w, p_value=a, **kw))
                judge(T, "p%.3g/print" % a, name, P, a, r2, printed)
                r3, printed = shown(lambda: f(y, x, w, p_value=a, finmod=False, **kw))
                judge(T, "p%.3g/nofin" % a, name, P, a, r3, printed, finmod=False)
            elif kind and out[1] is not False:
                T.close("p%.3g/betas" % a, out[1].betas, M[kind].betas, 1e-9)
        return
    _, name = p
    f = getattr(spreg, name)
    variants = {
        "plain": (dict(), lambda y, x: (y, x)),
        "name_y": (dict(name_y="dep"), lambda y, x: (y, x)),
        "name_x": (dict(name_x=["a", "b"]), lambda y, x: (y, x)),
        "robust": (dict(robust="white"), lambda y, x: (y, x)),
        "robust_named": (dict(robust="white", name_y="dep", name_x=["a", "b"]), lambda y, x: (y, x)),
        "w_lags1": (dict(w_lags=1), lambda y, x: (y, x)),
        "w_lags3": (dict(w_lags=3, name_y="dep", name_x=["a", "b"]), lambda y, x: (y, x)),
        "latex": (dict(latex=True), lambda y, x: (y, x)),
        "pandas": (dict(), lambda y, x: (pd.Series(y.ravel(), name="yy"), pd.DataFrame(x, columns=["u", "v"]))),
        "constant": (dict(), lambda y, x: (y, np.hstack([x[:, :1], np.full((len(x), 1), 3.), x[:, 1:]]))),
        "constant_named": (dict(name_y="dep", name_x=["a", "three", "b"]), lambda y, x: (y, np.hstack([x[:, :1], np.full((len(x), 1), 3.), x[:, 1:]]))),
        "series": (dict(), lambda y, x: (y, pd.Series(x[:, 0], name="u"))),
        "sig2n_k": (dict(sig2n_k=True), lambda y, x: (y, x)),
    }
    for v, (kw, form) in variants.items():
        seen = set()
        for i, par in enumerate([(0, 0, 0), (.6, 0, 0), (0, .6, 0), (.5, .5, 0), (0, 0, 1.), (.5, 0, 1.), (0, .6, 1.), (.4, .5, 1.)]):
            y, x, w = world(seed=900 + i, k=2, lat="rook:7x7", par=par)
            yy, xx = form(y, x)
            kw2 = {q: (list(u) if isinstance(u, list) else u) for q, u in kw.items() if q != "sig2n_k"}
            M, P = models(yy, xx, w, 1 if v == "series" else 2, **kw2)
            ps = allp(P)
            for a in (.01, .05, .2):
                if min(abs(a - u) for u in ps) < 1e-9:
                    continue
                T.state(v, i, a)
                T.call()
                kw2 = {q: (list(u) if isinstance(u, list) else u) for q, u in kw.items() if q != "sig2n_k" or name not in ()}
                out, printed = shown(lambda: f(yy, xx, w, p_value=a, mprint=False, **kw2))
                tag = "%s/%d_%g" % (v, i, a)
                kind = judge(T, tag, name, P, a, out, printed, mprint=False)
                if not kind or out[1] is False:
                    continue
                if v == "sig2n_k":
                    m = out[1]
                    if kind in ("LAG", "SDM"):
                        kk = m.k if isinstance(m.k, int) else int(m.k)
                        T.close(tag + "/lag_dof", m.sig2, (m.u.T @ m.u).item() / (m.n - kk), 1e-9)
                    elif kind in ("OLS", "SLX"):
                        T.close(tag + "/ols_dof", m.sig2, (m.u.T @ m.u).item() / (m.n - m.k), 1e-9)
                    continue
                d = deep.diff(deep.flatten(M[kind]), deep.flatten(out[1]), rtol=1e-9, atol=1e-12)
                T.true(tag + "/estimate", not d, "%s %s" % (kind, d[:3]))
                if kind not in seen:
                    seen.add(kind)
                    b = deep.flatten(M["OLS"]), xx.copy()
                    T.true(tag + "/inputs", np.array_equal(np.asarray(xx), np.asarray(form(y, x)[1])))
