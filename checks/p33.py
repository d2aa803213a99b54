"""P33: the printed output states the estimated results and nothing else."""
import contextlib, inspect, io, os, re, sys
import numpy as np
import pandas as pd
from scipy import stats
import allest

META = {"rule": "a state is (estimator configuration, output options); the printed summary is parsed back and every coefficient row, header figure, test line, marginal effect, impact, variance matrix and instrument list in it is compared with the fitted object; required sections must be there",
        "assumptions": ["numbers are compared at the printed precision"]}

CHEAP_VARIANTS = ["plain", "vm", "latex", "noname", "vmlatex", "nodiag", "diag", "impacts", "longname"]


def accepts(f):
    return set(inspect.signature(f.__init__).parameters)


def options(key, variant):
    f, args, opt = allest.CONF[key]
    acc = accepts(allest.fn(f))
    add = {}
    if variant in ("vm", "vmlatex"):
        add["vm"] = True
    if variant in ("latex", "vmlatex"):
        add["latex"] = True
    if variant == "nodiag":
        add.update(nonspat_diag=False, spat_diag=False)
    if variant == "diag":
        add.update(nonspat_diag=True, spat_diag=True)
        if "w" in args and f in ("OLS",):
            add.update(moran=True, white_test=True, vif=True)
    if variant == "impacts":
        add["spat_impacts"] = ["simple", "full"]
    need = {"vm": ["vm"], "latex": ["latex"], "vmlatex": ["latex"], "nodiag": ["nonspat_diag", "spat_diag"], "diag": ["spat_diag"], "impacts": ["spat_impacts"]}.get(variant, [])
    if need and not any(n in acc for n in need):
        return None
    add = {k: v for k, v in add.items() if k in acc}
    if variant == "diag" and not ("w" in args):
        add["spat_diag"] = False
    return add


def cases(tier):
    out = []
    for key in allest.CONF:
        if key == "Panel_RE_Error" or key.startswith("Panel_RE_Error"):
            continue
        for v in CHEAP_VARIANTS:
            if options(key, v) is None:
                continue
            if "Endog_Regimes" in key and v not in ("plain", "vm", "nodiag"):
                continue
            out.append(("%s/%s" % (key, v), (key, v)))
    for s in (1, 2, 3):      # further data for the table layout with global columns
        for cols in ("many", "one"):
            out.append(("mixed%d%s" % (s, cols), ("mixed", s, cols)))
    for cols in ("many", "one", "sep"):      # six regimes
        out.append(("six/" + cols, ("six", cols)))
    for opt in ("plain", "vm", "latex", "slx"):      # nine regressors
        out.append(("many/" + opt, ("many", opt)))
    for k in (2, 3):         # systems with the same number of variables in every equation: tests between equations
        for eqs in (2, 3):
            for f in ("SUR", "ThreeSLS", "SURlagIV", "SURlagIV/yend", "SURerrorGM", "SURerrorML"):
                for r in (0, 1) + ((2,) if "lagIV" in f else ()):
                    out.append(("sys/%s/k%d/e%d/r%d" % (f, k, eqs, r), ("sys", f, k, eqs, r)))
    return out


def system(f, k, eqs, r):
    import spreg
    wd = allest.world(70 + k)
    rs = np.random.RandomState(k * 10 + eqs)
    n = wd.n
    y, X, ye, q = {}, {}, {}, {}
    com = rs.randn(n, 1)
    for e in range(eqs):
        x = 2 * rs.rand(n, k)
        q[e] = rs.randn(n, 2)
        eps = com + rs.randn(n, 1)
        ye[e] = q[e] @ np.array([[1.0], [0.8]]) + 0.4 * eps + 0.3 * rs.randn(n, 1)
        y[e] = 1 + x.sum(1, keepdims=True) * (0.5 + 0.3 * e) + 0.5 * ye[e] + eps
        X[e] = np.hstack([np.ones((n, 1)), x])
    kw = dict(bigy=y, bigX=X, name_bigy={e: "y%d" % e for e in y}, name_bigX={e: ["Constant"] + ["%s%d" % (v, e) for v in "zab"[:k]] for e in y}, name_ds="d")
    name = f.split("/")[0]
    if name != "ThreeSLS":
        kw.update(w=wd.w, spat_diag=True)
    if name == "ThreeSLS" or "yend" in f:
        kw.update(bigyend=ye, bigq=q, name_bigyend={e: ["end%d" % e] for e in y}, name_bigq={e: ["q%da" % e, "q%db" % e] for e in y})
    if r:
        kw.update(regimes=allest.data(["regimes"])["regimes"], name_regimes="zone")
        if r == 2:
            kw["regime_lag_sep"] = True
    return getattr(spreg, name), kw


def fit(f, kw):
    """run with Python-level and descriptor-level standard output captured"""
    b = io.StringIO()
    r, w = os.pipe()
    sys.stdout.flush()
    old = os.dup(1)
    os.dup2(w, 1); os.close(w)
    try:
        with contextlib.redirect_stdout(b):
            m = f(**kw)
    finally:
        os.dup2(old, 1); os.close(old)
    os.set_blocking(r, False)
    try:
        low = os.read(r, 100000)
    except BlockingIOError:
        low = b""
    os.close(r)
    return m, b.getvalue() + low.decode()


NUM = r"(-?\d+\.?\d*(?:e[+-]?\d+)?|-?inf|nan)"
RE_TEST = re.compile(r"^(\s*\S.*?)\s+(\d+)\s+%s\s+%s\s*$" % (NUM, NUM))
RE_COEF = re.compile(r"^\s*(\S.*?)\s{3,}%s\s+%s\s+%s\s+%s\s*$" % (NUM, NUM, NUM, NUM))
RE_COEF1 = re.compile(r"^\s*(\S.*?)\s{3,}%s\s*$" % NUM)
RE_3 = re.compile(r"^\s*(\S.*?)\s+%s\s+%s\s+%s\s*$" % (NUM, NUM, NUM))
RE_2 = re.compile(r"^\s*(\S.*?)\s+%s\s+%s\s*$" % (NUM, NUM))


def dec(s):
    """half a unit of the last printed digit"""
    m = re.match(r"-?\d+(?:\.(\d*))?(?:e([+-]?\d+))?$", s)
    if not m:
        return 0.0
    return 0.5001 * 10.0 ** (-len(m.group(1) or "") + int(m.group(2) or 0))


def shown(s, v):
    """does the printed number s state value v?"""
    try:
        v = float(np.asarray(v).item())
    except Exception:
        return False
    x = float(s)
    if np.isnan(v) or np.isnan(x):
        return np.isnan(v) and np.isnan(x)
    if np.isinf(v) or np.isinf(x):
        return v == x
    return abs(x - v) <= dec(s) + 1e-12 * abs(v)


def header(block):
    out = {}
    for line in block.splitlines():
        if line.startswith("Spatial Pseudo R-squared:"):
            out["Spatial Pseudo R-squared"] = line.split(":")[1].strip()
            continue
        m = re.match(r"^(.{20}):\s*(.*?)(?:\s{16}(.{22}):\s*(\S.*))?$", line)
        if m:
            if m.group(1).strip():
                out[m.group(1).strip()] = m.group(2).strip()
            if m.group(3):
                out[m.group(3).strip().rstrip(":").strip()] = m.group(4).strip()
        else:
            m = re.match(r"^\s{30,}(.{22}):\s*(\S.*)$", line)
            if m:
                out[m.group(1).strip()] = m.group(2).strip()
    return out


def table(block, latex):
    """rows of the coefficient table: list of (name, [numbers as text])"""
    rows = []
    if latex:
        i, j = block.index("\\midrule"), block.index("\\bottomrule")
        for line in block[i:j].splitlines()[1:]:
            c = [p.strip() for p in line.rstrip("\\ ").split("&")]
            rows.append((c[0].replace("\\_", "_").replace("\\%", "%"), [v for v in c[1:]]))
        return rows
    lines = block.splitlines()
    for i, l in enumerate(lines):
        if re.match(r"^\s+Variable\s+Coefficient", l):
            for r in lines[i + 2:]:
                if r.startswith("----"):
                    return rows
                m = RE_COEF.match(r) or RE_COEF1.match(r)
                if not m:
                    rows.append((r, []))
                else:
                    rows.append((m.group(1), list(m.groups()[1:])))
    return rows


def coef_rows(T, pre, rows, expect, latex=False):
    """expect: list of (name, b, se, z, p) with se None when there is no inference"""
    expect = [(str(e[0]).strip(),) + tuple(e[1:]) for e in expect]
    T.eq(pre + "names", [r[0] for r in rows], [e[0] for e in expect])
    if len(rows) != len(expect):
        return
    for (nm, got), e in zip(rows, expect):
        if e[2] is None or (latex and np.isnan(e[2])):
            T.true(pre + "row/" + nm, len(got) >= 1 and shown(got[0], e[1]) and all(g == "nan" for g in got[1:]), "%s want %s" % (got, e))
        else:
            T.true(pre + "row/" + nm, len(got) == 4 and all(shown(g, v) for g, v in zip(got, e[1:])), "%s want %s" % (got, e))


def inference(m, ols):
    """(se, stat, prob) of every coefficient that has a variance"""
    vm = np.asarray(m.vm)
    b = np.asarray(m.betas).ravel()
    se = np.sqrt(np.diag(vm))
    z = b[:se.size] / se
    p = 2 * (stats.t.sf(np.abs(z), m.n - m.k) if ols else stats.norm.sf(np.abs(z)))
    return b, se, z, p


def f1(a):
    return float(np.asarray(a).item())


def head_check(T, pre, h, m, tname):
    ols = "OLS" in tname
    get = {"Number of Observations": lambda: m.n, "Number of Variables": lambda: m.k, "Degrees of Freedom": lambda: m.n - m.k,
           "Mean dependent var": lambda: np.mean(m.y), "S.D. dependent var": lambda: np.std(m.y, ddof=1),
           "R-squared": lambda: m.r2, "Adjusted R-squared": lambda: m.ar2, "Pseudo R-squared": lambda: m.pr2, "Spatial Pseudo R-squared": lambda: m.pr2_e,
           "Sum squared residual": lambda: m.utu, "F-statistic": lambda: m.f_stat[0], "Prob(F-statistic)": lambda: m.f_stat[1],
           "Log likelihood": lambda: m.logll, "Log-Likelihood": lambda: m.logl, "Akaike info criterion": lambda: m.aic, "Schwarz criterion": lambda: m.schwarz,
           "S.E. of regression": lambda: np.sqrt(f1(m.sig2)), "S.E of regression": lambda: np.sqrt(f1(m.sig2)), "Sigma-square": lambda: m.sig2,
           "S.E of regression ML": lambda: np.sqrt(f1(m.sig2n)), "Sigma-square ML": lambda: m.sig2n if hasattr(m, "sig2n") and hasattr(m, "f_stat") else m.sig2,
           "Fixed-effects mean": lambda: m.mean_mu_i, "True positive rate": lambda: m.fit["TPR"], "True negative rate": lambda: m.fit["TNR"],
           "Balanced accuracy": lambda: m.fit["BA"], "% correctly pred.": lambda: m.fit["PREDPC"], "McFadden's rho": lambda: m.mcfadrho,
           "LR test": lambda: m.LR[0], "LR test (p-value)": lambda: m.LR[1], "N. of iterations": lambda: m.niter if hasattr(m, "niter") else m.iteration}
    for lab, g in get.items():
        if lab not in h:
            continue
        if "omitted" in h[lab]:
            T.true(pre + "head/" + lab, abs(f1(m.rho)) >= 1, h[lab])
            continue
        if tname == "NSLX" and lab in ("Log likelihood", "Sigma-square"):
            v = m.ll if lab == "Log likelihood" else m.sign
        else:
            try:
                v = g()
            except AttributeError as e:
                T.fail(pre + "head/" + lab, "printed %s but %s" % (h[lab], e)); continue
        T.true(pre + "head/" + lab, shown(h[lab], v), "%s want %s" % (h[lab], v))
    if "Step1c computed" in h:
        T.eq(pre + "head/step1c", h["Step1c computed"], "Yes" if m.step1c else "No")
    if "A1 type" in h:
        T.eq(pre + "head/A1", h["A1 type"].lstrip(": "), str(m.A1))
    for lab, attr in (("Data set", "name_ds"), ("Weights matrix", "name_w"), ("Dependent Variable", "name_y")):
        if hasattr(m, attr):
            T.eq(pre + "head/" + lab, h.get(lab), str(getattr(m, attr)))
    # figures that belong to the model must be there
    must = {"pr2": "Pseudo R-squared", "r2": "R-squared", "ar2": "Adjusted R-squared", "pr2_e": "Spatial Pseudo R-squared", "f_stat": "F-statistic",
            "mcfadrho": "McFadden's rho", "mean_mu_i": "Fixed-effects mean"}
    for attr, lab in must.items():
        if hasattr(m, attr) and getattr(m, attr) is not None:
            T.true(pre + "has/" + lab, lab in h, sorted(h))


# printed test -> (df, value, prob) of the fitted object
def tests_of(m):
    t = {}
    g = lambda d, *k: tuple(d[i] for i in k)
    if hasattr(m, "jarque_bera"):
        t["Jarque-Bera"] = g(m.jarque_bera, "df", "jb", "pvalue")
    if hasattr(m, "breusch_pagan"):
        t["Breusch-Pagan test"] = g(m.breusch_pagan, "df", "bp", "pvalue")
    if hasattr(m, "koenker_bassett"):
        t["Koenker-Bassett test"] = g(m.koenker_bassett, "df", "kb", "pvalue")
    if hasattr(m, "white") and isinstance(m.white, dict):
        t["White"] = g(m.white, "df", "wh", "pvalue")
    if hasattr(m, "dwh"):
        t["Durbin-Wu-Hausman test"] = (m.yend.shape[1],) + tuple(m.dwh[:2])
    if hasattr(m, "ak_test"):
        t["Anselin-Kelejian Test"] = (1,) + tuple(m.ak_test[:2])
    if hasattr(m, "cfh_test"):
        t["Common Factor Hypothesis Test"] = (None,) + tuple(m.cfh_test[:2])
    for lab, a, df in (("Robust LM (lag)", "rlm_lag", 1), ("Lagrange Multiplier (lag)", "lm_lag", 1), ("Lagrange Multiplier (error)", "lm_error", 1), ("Robust LM (error)", "rlm_error", 1),
                       ("Lagrange Multiplier (SARMA)", "lm_sarma", 2), ("LM test for WX", "lm_wx", None), ("Robust LM WX test", "rlm_wx", None), ("Robust LM Lag - SDM", "rlm_durlag", 1), ("Joint test for SDM", "lm_spdurbin", None),
                       ("Kelejian-Prucha (error)", "KP_error", 1), ("Pinkse (error)", "Pinkse_error", 1), ("Pinkse-Slade (error)", "PS_error", 1)):
        if hasattr(m, a) and getattr(m, a) is not None:
            v = getattr(m, a)
            t[lab] = (df, v[0], v[1])
    if isinstance(getattr(m, "bsk", None), dict) or isinstance(getattr(m, "bsk", None), pd.DataFrame):
        for i in range(len(m.bsk["Test"])):
            t[str(m.bsk["Test"][i]).strip()] = (m.bsk["df"][i], m.bsk["Statistic"][i], m.bsk["p-value"][i])
    if hasattr(m, "hausman_stat"):
        t["Hausman Specification Test"] = (m.hausman_df, m.hausman_stat, m.hausman_p)
    return t


TEST_LABELS = ["Jarque-Bera", "Breusch-Pagan test", "Koenker-Bassett test", "White", "Durbin-Wu-Hausman test", "Anselin-Kelejian Test", "Common Factor Hypothesis Test", "Robust LM (lag)", "Lagrange Multiplier (lag)",
               "Lagrange Multiplier (error)", "Robust LM (error)", "Lagrange Multiplier (SARMA)", "LM test for WX", "Robust LM WX test", "Robust LM Lag - SDM", "Joint test for SDM", "Kelejian-Prucha (error)", "Pinkse (error)",
               "Pinkse-Slade (error)", "Hausman Specification Test"]
NOT_CHI2 = ("Kelejian-Prucha (error)", "Durbin-Wu-Hausman test", "LM Conditional Spatial", "LM Marginal")


def chi2_ok(df, val, p):
    v, e = float(val), dec(val)
    lo, hi = stats.chi2.sf(v + e, int(df)), stats.chi2.sf(max(v - e, 0), int(df))
    return lo - dec(p) <= float(p) <= hi + dec(p)


def test_lines(T, pre, text, m, labels=None):
    want = tests_of(m)
    seen = {}
    for line in text.splitlines():
        mm = RE_TEST.match(line)
        if not mm:
            continue
        lab = mm.group(1).strip()
        if lab in want:
            df, v, p = want[lab]
            seen[lab] = 1
            T.true(pre + "test/" + lab, (df is None or int(mm.group(2)) == int(df)) and shown(mm.group(3), v) and shown(mm.group(4), p), "%s want %s" % (line, want[lab]))
            if not lab.startswith(NOT_CHI2) and lab in TEST_LABELS:
                T.true(pre + "chi2/" + lab, chi2_ok(*mm.groups()[1:]), line)
        elif lab in TEST_LABELS:
            T.fail(pre + "test/" + lab, "printed without a value in the object: " + line)
    for lab in want:
        T.true(pre + "has/" + lab, lab in seen, "not printed")
    for line in text.splitlines():
        mm = re.match(r"^Moran's I \(error\)\s+%s\s+%s\s+%s$" % (NUM, NUM, NUM), line)
        if mm:
            T.true(pre + "test/moran", hasattr(m, "moran_res") and all(shown(a, b) for a, b in zip(mm.groups(), m.moran_res)), line)
        mm = re.match(r"^MULTICOLLINEARITY CONDITION NUMBER\s+%s" % NUM, line)
        if mm:
            T.true(pre + "mulcolli", shown(mm.group(1), m.mulColli), line)
    if hasattr(m, "moran_res"):
        T.true(pre + "has/moran", "Moran's I (error)" in text)


def chow_lines(T, pre, text, m):
    if "- CHOW TEST -" not in text:
        T.fail(pre + "has/chow", "no Chow section")
        return
    sec = text.split("- CHOW TEST -")[1].splitlines()[2:]
    rows = []
    for line in sec:
        mm = RE_TEST.match(line)
        if not mm:
            break
        rows.append((mm.group(1).strip(),) + mm.groups()[1:])
    T.eq(pre + "chow/rows", len(rows), np.asarray(m.chow.regi).shape[0] + 1)
    exp = list(np.asarray(m.chow.regi)) + [m.chow.joint]
    for r, e in zip(rows, exp):
        T.true(pre + "chow/" + r[0], shown(r[2], e[0]) and shown(r[3], e[1]) and chi2_ok(*r[1:]), "%s want %s" % (r, e))
    T.eq(pre + "chow/names", [r[0] for r in rows], list(m.output_chow["var_names"]))
    mm = re.search(r"Overall SSR\s+:\s*(\S+)\nNumber of clusters\s+:\s*(\S+)", text)
    if T.true(pre + "chow/ssr", mm is not None):
        ssr = getattr(m, "score", None)
        ssr = float(np.sum(np.asarray(m.u) ** 2)) if ssr is None else ssr
        T.true(pre + "chow/ssr", shown(mm.group(1), ssr), "%s want %s" % (mm.group(1), ssr))
        T.eq(pre + "chow/n", int(mm.group(2)), m.nr if hasattr(m, "nr") else len(set(m.clusters)))


def wrapped(text, start):
    """comma separated list after a label, possibly wrapped"""
    i = text.find("\n" + start)
    if i < 0:
        return None
    body = text[i + 1 + len(start):]
    lines = body.split("\n")
    s = lines[0]
    for l in lines[1:]:
        if not l.startswith(" " * 13):
            break
        s += " " + l.strip()
    return [v.strip() for v in s.split(",")]


def impacts(T, pre, text, m):
    if not getattr(m, "sp_multipliers", None):
        if getattr(m, "sp_multipliers", 0) is None and "MODEL IMPACTS" in text:
            T.true(pre + "impacts/omitted", "Omitted" in text)
        return
    meths = re.findall(r"Impacts computed using the '(\w+)' method\.\n", text)
    T.eq(pre + "impacts/methods", sorted(set(meths)), sorted(m.sp_multipliers))
    slx = getattr(m, "slx_lags", 0)
    b = {}
    o = m.output if hasattr(m, "output") and m.output is not None else None
    for part in text.split("Impacts computed using the '")[1:]:
        meth = part.split("'")[0]
        for line in part.splitlines()[2:]:
            mm = RE_3.match(line)
            if not mm:
                break
            d, i, t = (float(v) for v in mm.groups()[1:])
            T.true(pre + "impacts/sum/%s/%s" % (meth, mm.group(1)), abs(d + i - t) <= 1.6e-4 + 1e-9 * abs(t), line)
            if slx == 0 and o is not None:
                r = o[o["var_names"] == mm.group(1)]
                if T.eq(pre + "impacts/name/" + mm.group(1), len(r), 1):
                    bb = float(r["coefficients"].iloc[0])
                    mult = m.sp_multipliers[meth]
                    T.true(pre + "impacts/val/%s/%s" % (meth, mm.group(1)), abs(d - bb * mult[0]) < 6e-5 * (1 + abs(d)) and abs(t - bb * mult[2]) < 6e-5 * (1 + abs(t)), "%s b=%s %s" % (line, bb, mult))


def vm_section(T, pre, text, m):
    sec = text.split("COEFFICIENTS VARIANCE MATRIX")[1].splitlines()[2:]
    vm = np.asarray(m.vm)
    got = []
    for l in sec[1:1 + vm.shape[0]]:
        got.append([l[i:i + 12].strip() for i in range(0, len(l), 12)])
    ok = len(got) == vm.shape[0] and all(len(g) == vm.shape[1] for g in got)
    if not ok:       # columns overflow: fall back to counting the rows
        T.true(pre + "vm/rows", len(sec) > vm.shape[0], len(sec))
        return
    T.true(pre + "vm", all(shown(g, v) for gr, vr in zip(got, vm) for g, v in zip(gr, vr)), got)


def run(case, T):
    if case[0] == "mixed":
        import spreg
        wd = allest.world(50 + case[1])
        kw = dict(y=wd.y, x=np.hstack([wd.x, wd.q]), regimes=allest.data(["regimes"])["regimes"], w=wd.w, name_x=["zz", "aa", "mm", "bb"], name_y="dep", name_ds="d", name_regimes="r",
                  cols2regi=[[True, False, True, False], [False, True, False, True], [False, True, True, False]][case[1] - 1], constant_regi=case[2], regime_err_sep=False)
        for nm, f in (("ols", spreg.OLS_Regimes), ("mlerr", spreg.ML_Error_Regimes), ("err", spreg.GM_Error_Regimes), ("lag", lambda **k: spreg.GM_Lag_Regimes(**dict(k, regime_lag_sep=False))),
                      ("het", spreg.GM_Error_Het_Regimes), ("hom", spreg.GM_Error_Hom_Regimes)):
            T.call(); T.state(*case, nm)
            m, out = fit(f, kw)
            check(T, nm + "/", m, out, {}, False)
        return
    if case[0] == "six":
        import spreg, worlds
        wd = worlds.World("rook:8x12", k=3, e=1, m=2, rho=0.2)
        lab = [[30, 4, 11, 2, 5, 100][(i % 12) // 2] for i in range(wd.n)]
        for mask in ([True, False, True], [False, True, True]):
            kw = dict(y=wd.y, x=wd.x, regimes=lab, w=wd.w, name_x=["zz", "aa", "mm"], name_y="dep", name_ds="d", name_regimes="r",
                      cols2regi=mask, constant_regi=case[1], regime_err_sep=False)
            if case[1] == "sep":
                kw.update(cols2regi="all", constant_regi="many", regime_err_sep=True)
            for nm, f in (("ols", spreg.OLS_Regimes), ("mlerr", spreg.ML_Error_Regimes), ("err", spreg.GM_Error_Regimes), ("lag", lambda **k: spreg.GM_Lag_Regimes(**dict(k, regime_lag_sep=case[1] == "sep"))),
                          ("het", spreg.GM_Error_Het_Regimes), ("hom", spreg.GM_Error_Hom_Regimes), ("tsls", lambda **k: spreg.TSLS_Regimes(**dict({a: b for a, b in k.items() if a != "w"}, yend=wd.yend, q=wd.q, name_yend=["ee"], name_q=["q1", "q2"], cols2regi=mask + [True] if case[1] != "sep" else "all")))):
                T.call(); T.state(*case, nm, str(mask))
                m, out = fit(f, kw)
                check(T, "%s/%s/" % (nm, "".join("01"[b] for b in mask)), m, out, {}, False)
        return
    if case[0] == "many":
        import spreg, worlds
        wd = worlds.World("rook:8x12", k=3, e=2, m=3, rho=0.2)
        X9 = np.hstack([wd.x, np.random.RandomState(4).randn(wd.n, 6) * [1, 2, 0.5, 1, 1, 3]])
        add = {"vm": {"vm": True}, "latex": {"latex": True}}.get(case[1], {})
        slx = {"slx_lags": 2} if case[1] == "slx" else {}
        nmx = ["zz", "aa", "mm", "bb", "yy", "cc", "xx", "dd", "ww"]
        kw = dict(y=wd.y, x=X9, w=wd.w, name_x=nmx, name_y="dep", name_ds="d", **add)
        iv = dict(yend=wd.yend, q=wd.q, name_yend=["ee", "ff"], name_q=["q3", "q1", "q2"])
        for nm, f, extra in (("ols", spreg.OLS, dict(spat_diag=True, moran=True, vif=True, white_test=True, **slx)), ("lag", spreg.GM_Lag, dict(spat_impacts=["simple", "full", "power"], **slx)),
                             ("lagiv", spreg.GM_Lag, dict(iv, w_lags=2, **slx)), ("mllag", spreg.ML_Lag, dict(slx)), ("mlerr", spreg.ML_Error, dict(slx)), ("err", spreg.GM_Error, dict(slx)),
                             ("combo", spreg.GM_Combo, dict(iv, **slx)), ("het", spreg.GM_Endog_Error_Het, dict(iv, **slx)), ("hom", spreg.GM_Combo_Hom, dict(iv, **slx)), ("tsls", spreg.TSLS, dict(iv, spat_diag=True, **slx))):
            T.call(); T.state(*case, nm)
            m, out = fit(f, dict(kw, **extra))
            check(T, nm + "/", m, out, dict(add, vif=nm == "ols"), "latex" in add)
        return
    if case[0] == "sys":
        f, kw = system(*case[1:])
        T.call(); T.state(*case)
        m, out = fit(f, kw)
        return check(T, "", m, out, {}, False)
    key, variant = case
    f, kw = allest.make(key, withnames=variant != "noname")
    add = options(key, variant)
    kw.update(add)
    if variant == "longname":
        for k in ("name_x", "name_yend"):
            if k in kw:
                kw[k] = ["a_long_variable_name_%s" % v for v in kw[k]]
        if "name_y" in kw:
            kw["name_y"] = "long_response_name_y"
    T.call(); T.state(*case)
    m, out = fit(f, kw)
    if key == "GM_KKP/wide":        # documented notice about the assumed layout
        out = re.sub(r"^Warning: Assuming time data is in wide format.*\n .*\n$", "", out)
    check(T, "", m, out, add, "latex" in add)
    title_check(T, key, kw, m)


def title_check(T, key, kw, m):
    """the title names the model estimated: its family, spatial structure, estimation method, lags of x and regimes"""
    f = allest.CONF[key][0]
    est = {"GMM_Error": {"kp98": "GM_", "het": "GM_Het_", "hom": "GM_Hom_"}.get(kw.get("estimator"), "") + ("Combo" if kw.get("add_wy") else "Endog_Error" if kw.get("yend") is not None else "Error")}.get(f, f)
    panel = est.startswith(("Panel", "PooledOLS", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "GM_KKP")) or est.endswith(("FE", "RE"))
    sur_ = est.startswith(("SUR", "ThreeSLS"))
    iv = est.startswith(("TSLS", "GM_Lag", "ThreeSLS")) or "Endog_Error" in est or "Combo" in est
    ml = est.startswith("ML_") or est.startswith("Panel_") or est == "SURerrorML"
    want = {
        "SLX|DURBIN|GNS": bool(kw.get("slx_lags")) or est == "NSLX",
        "REGIME": "Regimes" in est or kw.get("regimes") is not None,
        "HET": "Het" in est, "HOM": "Hom" in est,
        "FIXED EFFECTS": est in ("PanelFE",) or est.endswith("FE") or "_FE_" in est,
        "RANDOM EFFECTS": est in ("PanelRE", "GM_KKP") or est.endswith("RE") or "_RE_" in est,
        "POOLED": "Pooled" in est, "PANEL|POOLED": panel,
        "SEEMINGLY|SUR": est.startswith("SUR"),
        "MAXIMUM LIKELIHOOD|\\bML\\b": ml,
        "METHOD =": est in ("ML_Lag", "ML_Error", "ML_Lag_Regimes", "ML_Error_Regimes"),
        "COMBO|GNS": "Combo" in est,
        "ERROR|WEIGHTED|COMBO": "rror" in est or "Combo" in est or est == "GM_KKP",
        "PROBIT": est == "Probit",
        "ORDINARY|\\bOLS\\b": "OLS" in est,
    }
    if not sur_ and not panel and not ml and est != "NSLX" and "Probit" not in est:
        want["TWO STAGE|2SLS|COMBO"] = iv
        want["SPATIAL(LY)?( WEIGHTED)? (TWO STAGE|2SLS|LEAST|LS|MODEL|COMBO)"] = not est.startswith(("OLS", "TSLS"))
    if "LagIV" in est.replace("lag", "Lag") or est.startswith("ML_Lag") or "_Lag" in est and est.startswith("Panel"):
        want["LAG|DURBIN"] = True
    for i, b in enumerate(m.summary.split("SUMMARY OF OUTPUT:")[1:]):
        t = b.split("\n")[0].strip()
        for pat, yes in want.items():
            T.eq("names/%d/%s" % (i, pat), bool(re.search(pat, t, re.I)), yes)
        if want["METHOD ="]:
            T.true("names/%d/method" % i, ("(METHOD = %s)" % kw.get("method", "ord" if not "Regimes" in est else "full")).upper() in t.upper(), t)
        if getattr(m, "multi", None) and len(m.summary.split("SUMMARY OF OUTPUT:")) > 2 and not sur_:
            T.true("names/%d/regime" % i, t.upper().split(" (METHOD")[0].endswith("REGIME %s" % str(sorted(m.multi, key=str)[i]).upper()), t)


def check(T, pre, m, out, add, latex):
    T.eq(pre + "stdout", out, "")
    s = m.summary
    T.true(pre + "summary", isinstance(s, str) and s.rstrip().endswith("END OF REPORT ====================================="), repr(s)[-200:])
    if hasattr(m, "bSUR") or hasattr(m, "b3SLS"):
        return sur(T, pre, m, s)
    tname = type(m).__name__
    ols = "OLS" in tname
    blocks = s.split("SUMMARY OF OUTPUT:")[1:]
    titles = [b.split("\n")[0].strip() for b in blocks]
    old = not hasattr(m, "output")
    if hasattr(m, "multi") and m.multi and len(blocks) > 1:
        T.eq(pre + "blocks", len(blocks), len(m.multi))
        allrows = []
        left = dict(m.multi)
        for i, b in enumerate(blocks):
            sub = b.split("GLOBAL DIAGNOSTICS")[0]
            r = [q for q, g in left.items() if sub.split("\n")[0].strip() == str(g.title).strip()]
            if not T.true(pre + "title/%d" % i, len(r) == 1, sub.split("\n")[0]):
                continue
            r = r[0]
            mr = left.pop(r)
            head_check(T, pre + "%s/" % r, header(sub), mr, tname)
            bb, se, z, p = inference(mr, ols)
            names = list(mr.name_z) if hasattr(mr, "name_z") else list(mr.name_x)
            exp = [(names[i], bb[i]) + ((se[i], z[i], p[i]) if i < se.size else (None,) * 3) for i in range(bb.size)]
            coef_rows(T, pre + "%s/" % r, table(sub, latex), exp, latex)
            allrows += exp
            test_lines(T, pre + "%s/" % r, sub, mr)
            impacts_multi(T, pre + "%s/" % r, sub, mr, dict((e[0], e[1]) for e in exp))
            insts(T, pre + "%s/" % r, sub, mr)
        o = m.output
        T.eq(pre + "output/names", list(o["var_names"]), [e[0] for e in allrows])
        for e, row in zip(allrows, o.itertuples()):
            T.close(pre + "output/coef/" + e[0], row.coefficients, e[1], rtol=1e-12)
            if e[2] is not None:
                T.close(pre + "output/inf/" + e[0], [row.std_err, row.zt_stat, row.prob], e[2:], rtol=1e-10, atol=1e-300)
        if "GLOBAL DIAGNOSTICS" in s:
            glob = s.split("GLOBAL DIAGNOSTICS")[1]
            chow_lines(T, pre, glob, m)
            test_lines(T, pre + "global/", glob, m)
        else:
            T.fail(pre + "has/global", "no global section")
    else:
        T.eq(pre + "blocks", len(blocks), 1)
        T.eq(pre + "title", titles[0], str(m.title).strip())
        head_check(T, pre, header(s), m, tname)
        if old:
            rows = table(s, False)
            bb, se, z, p = inference(m, False)
            names = list(m.name_x) + [v for v in getattr(m, "name_z", []) if v not in m.name_x]
            exp = [(names[i], bb[i]) + ((se[i], z[i], p[i]) if i < se.size else (None,) * 3) for i in range(bb.size)]
            coef_rows(T, pre, rows, exp)
        else:
            o = m.output
            bb, se, z, p = inference(m, ols)
            T.eq(pre + "output/index", sorted(o.index), list(range(bb.size)))
            for row in o.itertuples():
                i = row.Index
                T.close(pre + "output/coef/" + str(row.var_names), row.coefficients, bb[i], rtol=1e-12)
                if i < se.size:
                    T.close(pre + "output/inf/" + str(row.var_names), [row.std_err, row.zt_stat, row.prob], [se[i], z[i], p[i]], rtol=1e-9, atol=1e-300)
            exp = [(str(r.var_names), bb[r.Index]) + ((se[r.Index], z[r.Index], p[r.Index]) if r.Index < se.size else (None,) * 3) for r in o.itertuples()]
            coef_rows(T, pre, table(s, latex), exp, latex)
            test_lines(T, pre, s, m)
            if hasattr(m, "chow") and not isinstance(m.chow, str):
                chow_lines(T, pre, s, m)
            impacts(T, pre, s, m)
            insts(T, pre, s, m)
            if hasattr(m, "vif") and "VARIANCE INFLATION FACTOR" in s:
                pass
        if hasattr(m, "slopes"):
            rows = [mm for mm in (RE_COEF.match(l) for l in s.split("MARGINAL EFFECTS")[1].split("\n\n")[0].splitlines()) if mm]
            T.eq(pre + "slopes/n", len(rows), len(m.slopes))
            for i, mm in enumerate(rows):
                e = [m.slopes[i][0], m.slopes_std_err[i], m.slopes_z_stat[i][0], m.slopes_z_stat[i][1]]
                T.true(pre + "slopes/%d" % i, mm.group(1) == m.name_x[i + 1] and all(shown(g, v) for g, v in zip(mm.groups()[1:], e)), "%s want %s" % (mm.group(0), e))
        if hasattr(m, "sigma2_epsilon") and "VARIANCE COMPONENTS" in s:
            for lab, v in (("Sigma2_epsilon", m.sigma2_epsilon), ("Sigma2_mu", m.sigma2_mu), ("Theta", m.theta)):
                mm = re.search(r"%s \(.*?\)\s+(\S+)" % lab, s)
                T.true(pre + "comp/" + lab, mm and shown(mm.group(1), v), mm and mm.group(0))
    if add.get("vm"):
        if T.true(pre + "has/vm", "COEFFICIENTS VARIANCE MATRIX" in s) and not old:
            vm_section(T, pre, s, m)
    else:
        T.true(pre + "no/vm", "COEFFICIENTS VARIANCE MATRIX" not in s)
    if add.get("vif") and getattr(m, "regimes", None) is None and T.true(pre + "has/vif", "VARIANCE INFLATION FACTOR" in s):
        rows = [RE_2.match(l) for l in s.split("VARIANCE INFLATION FACTOR")[1].splitlines()[2:]]
        X = np.asarray(m.x)[:, 1:]
        for j, nm in enumerate(m.name_x[1:]):
            Z = np.hstack([np.ones((m.n, 1)), np.delete(X, j, 1)])
            e = X[:, j] - Z @ np.linalg.lstsq(Z, X[:, j], rcond=None)[0]
            tol = e @ e / np.sum((X[:, j] - X[:, j].mean()) ** 2)
            T.true(pre + "vif/" + nm, rows[j] is not None and rows[j].group(1) == nm and shown(rows[j].group(2), 1 / tol) and shown(rows[j].group(3), tol), rows[j] and rows[j].group(0))
    # header lines of the requested robust type
    rob = getattr(m, "robust", None)
    lab = {"white": "White Standard Errors", "hac": "HAC Standard Errors; Kernel Weights: ", "ogmm": "Optimal GMM used to estimate"}
    for k, v in lab.items():
        if not old and not hasattr(m, "multi"):
            T.eq(pre + "robust/" + k, v in s, rob == k)


def impacts_multi(T, pre, text, m, b):
    if "Impacts computed" not in text or not getattr(m, "sp_multipliers", None):
        return
    slx = getattr(m, "slx_lags", 0)
    for part in text.split("Impacts computed using the '")[1:]:
        meth = part.split("'")[0]
        for line in part.splitlines()[2:]:
            mm = RE_3.match(line)
            if not mm:
                break
            d, i, t = (float(v) for v in mm.groups()[1:])
            T.true(pre + "impacts/sum/%s/%s" % (meth, mm.group(1)), abs(d + i - t) <= 1.6e-4 + 1e-9 * abs(t), line)
            if slx == 0 and T.true(pre + "impacts/name/" + mm.group(1), mm.group(1) in b, sorted(b)):
                mult = m.sp_multipliers[meth]
                T.true(pre + "impacts/val/%s/%s" % (meth, mm.group(1)), abs(d - b[mm.group(1)] * mult[0]) < 6e-5 * (1 + abs(d)) and abs(t - b[mm.group(1)] * mult[2]) < 6e-5 * (1 + abs(t)), line)


def insts(T, pre, text, m):
    if getattr(m, "name_yend", None) and getattr(m, "name_q", None):
        T.eq(pre + "instrumented", wrapped(text, "Instrumented:"), sorted(m.name_yend))
        T.eq(pre + "instruments", wrapped(text, "Instruments:"), sorted(m.name_q))
    else:
        T.true(pre + "no/instruments", "Instrumented:" not in text)


def sur(T, pre, m, s):
    B, inf = (m.bSUR, m.sur_inf) if hasattr(m, "bSUR") else (m.b3SLS, m.tsls_inf)
    h = header(s.split("SUMMARY OF EQUATION")[0])
    T.eq(pre + "head/n_eq", h.get("Number of Equations"), str(m.n_eq))
    T.eq(pre + "head/n", h.get("Number of Observations"), str(m.n))
    for lab, a in (("Log likelihood (SUR)", "llik"), ("Log likel. (error)", "errllik"), ("Log likel. (SUR error)", "surerrllik")):
        if hasattr(m, a) and getattr(m, a) is not None and not (lab.startswith("Log likel. (") and not hasattr(m, "surerrllik")):
            T.true(pre + "head/" + a, lab in h and shown(h[lab], getattr(m, a)), "%s %s" % (h.get(lab), getattr(m, a)))
    if "Number of Iterations" in h:
        T.eq(pre + "head/iter", h["Number of Iterations"], str(m.niter))
    blocks = s.split("SUMMARY OF EQUATION")[1:]
    T.eq(pre + "blocks", len(blocks), m.n_eq)
    for r, b in zip(m.name_bigy, blocks):
        p = pre + "eq%s/" % r
        head, rest = b, b
        hh = header(b)
        names = list(m.name_bigX[r]) + (list(m.name_bigyend[r]) if hasattr(m, "b3SLS") else [])
        T.eq(p + "k", hh.get("Number of Variables"), str(B[r].shape[0]))
        T.eq(p + "df", hh.get("Degrees of Freedom"), str(m.n - B[r].shape[0]))
        T.eq(p + "y", hh.get("Dependent Variable"), m.name_bigy[r])
        T.true(p + "mean", shown(hh["Mean dependent var"], np.mean(m.bigy[r])))
        rows = table(b, False)
        got = {}
        for nm, v in rows:
            T.true(p + "dup/" + nm, nm not in got)
            got[nm] = v
        nl = 0
        for i, nm in enumerate(names):
            e = (B[r][i, 0],) + tuple(inf[r][i])
            T.true(p + "row/" + nm, nm in got and len(got[nm]) == 4 and all(shown(g, v) for g, v in zip(got.get(nm, []), e)), "%s want %s" % (got.get(nm), e))
        if hasattr(m, "lamsur"):
            nl = 1
            lam = np.asarray(m.lamsur).ravel()[list(m.name_bigy).index(r)]
            nm = "lambda_%d" % (r + 1)
            v = got.get(nm)
            T.true(p + "lambda", v and shown(v[0], lam), "%s want %s" % (v, lam))
            if getattr(m, "lamsetp", None) is not None and v:
                j = list(m.name_bigy).index(r)
                T.true(p + "lambda_inf", len(v) == 4 and all(shown(g, m.lamsetp[q][j]) for q, g in enumerate(v[1:])), v)
        T.eq(p + "nrows", len(rows), len(names) + nl)
        if hasattr(m, "b3SLS"):
            T.eq(p + "instrumented", wrapped(b, "Instrumented:"), sorted(m.name_bigyend[r]))
            T.eq(p + "instruments", wrapped(b, "Instruments:"), sorted(m.name_bigq[r]))
        if hasattr(m, "chow_regimes"):
            joint, regi = m.chow_regimes[r]
            sec = b.split("CHOW TEST WITHIN EQUATION")[1].splitlines()[2:]
            rows = []
            for line in sec:
                mm = RE_TEST.match(line)
                if not mm:
                    break
                rows.append((mm.group(1).strip(),) + mm.groups()[1:])
            nx = list(m.name_x_r[r])
            if rows:
                T.true(p + "chow/joint", rows[-1][0] == "Global test" and shown(rows[-1][2], joint[0]) and shown(rows[-1][3], joint[1]) and chi2_ok(*rows[-1][1:]), "%s want %s" % (rows[-1], joint))
            exp = dict(zip(["CONSTANT"] + nx[1:], np.asarray(regi)))
            T.eq(p + "chow/names", sorted(v[0] for v in rows[:-1]), sorted(exp))
            for v in rows[:-1]:
                if v[0] in exp:
                    T.true(p + "chow/" + v[0], shown(v[2], exp[v[0]][0]) and shown(v[3], exp[v[0]][1]) and chi2_ok(*v[1:]), "%s want %s" % (v, exp[v[0]]))
    tail = blocks[-1]
    want = {}
    for lab, a in (("LM test on Sigma", "lmtest"), ("LR test on Sigma", "lrtest"), ("LR test on lambda", "likrlambda"), ("Joint significance (lambda)", "joinlam"), ("Joint significance (rho)", "joinrho"), ("Lagrange Multiplier (error)", "lmEtest"),
                   ("Lagrange Multiplier (lag)", "lmlagtest")):
        if getattr(m, a, None) is not None:
            want[lab] = getattr(m, a)
    if getattr(m, "lamtest", None) is not None and re.search(r"^\s+lambda\s", tail, re.M):
        want["lambda"] = m.lamtest
    got = {}
    for line in tail.splitlines():
        mm = RE_TEST.match(line)
        if mm:
            got.setdefault(mm.group(1).strip(), []).append(mm.groups()[1:])
    for lab, (v, df, p) in want.items():
        g = got.get(lab, [None])[0]
        T.true(pre + "test/" + lab, g is not None and int(g[0]) == int(df) and shown(g[1], v) and shown(g[2], p) and chi2_ok(*g), "%s want %s" % (g, (v, df, p)))
    if getattr(m, "surchow", None) is not None and "CHOW TEST BETWEEN EQUATIONS" in tail:
        sec = tail.split("CHOW TEST BETWEEN EQUATIONS")[1]
        names = {r: list(m.name_bigX[r]) + (list(m.name_bigyend[r]) if hasattr(m, "b3SLS") else []) for r in m.name_bigy}
        k = len(m.surchow)
        lines = [mm.groups() for mm in (RE_TEST.match(l) for l in sec.splitlines()) if mm]
        lines = [(a.strip(), b, c, d) for a, b, c, d in lines if a.strip() != "lambda" and not a.strip().startswith("Lagrange")]
        T.eq(pre + "surchow/n", len(lines), k)
        for i in range(k):
            nm = ", ".join(names[r][i] for r in m.name_bigy)
            if len(nm) + 2 > 42:
                nm = (nm + ", ")[:38] + "..."
            g = [l for l in lines if l[0] == nm]
            T.true(pre + "surchow/" + nm, len(g) == 1 and shown(g[0][2], m.surchow[i][0]) and shown(g[0][3], m.surchow[i][2]), "%s want %s" % (g, m.surchow[i]))
    mat = tail.split("ERROR CORRELATION MATRIX\n")[1].splitlines()[1:1 + m.n_eq]
    C = np.asarray(m.corr)
    for i, l in enumerate(mat):
        T.true(pre + "corr/%d" % i, all(shown(g, v) for g, v in zip(l.split(), C[i])), l)
