"""P31: estimators with endogenous regimes = regimes model on the clusters found (P30), and the choice of the number of clusters."""
import itertools
import warnings
import numpy as np
import pandas as pd
import spreg
import deep
import worlds
from spreg.skater_reg import Skater_reg
from p26 import quiet

META = {"rule": "choice: a state is a trace of scores, ALL non-increasing traces over a step alphabet up to a length, with all window sizes; estimation: a state is (estimator, lattice, data, clusters requested or chosen, trace flag, option, input form)",
        "assumptions": ["clusters themselves are judged by P30; the regimes model by P08-P10"]}


def cases(tier):
    out = []
    N = 8 if tier == "quick" else 10
    for d0 in (0., .5, 3., 30.):
        for d1 in (0., .5, 3., 30.):
            out.append(("optimk/%g_%g" % (d0, d1), ("k", d0, d1, N)))
    out.append(("optimk/real", ("kreal", 40 if tier == "quick" else 400)))
    lats = ["rook:6x6", "queen:5x8"] + (["rook:9x9", "knn:6x7", "queen:6x6"] if tier == "thorough" else [])
    for est in ("OLS", "TSLS", "GM_Lag"):
        for lat in lats:
            for s in range(2 if tier == "quick" else 6):
                for nc in (2, 3, None):
                    out.append(("%s/%s/s%d/%s" % (est, lat, s, nc), ("est", est, lat, s, nc)))
    for est, n in (("OLS", 60), ("OLS", 61), ("OLS", 62), ("TSLS", 61), ("GM_Lag", 61)):      # lines, where the default quorum leaves one cut or none
        out.append(("%s/line%d" % (est, n), ("est", est, "rook:1x%d" % n, 0, 2)))
    for est in ("OLS", "TSLS", "GM_Lag"):                # more regressors: the default quorum grows with them
        for n, k in ((79, 3), (80, 3), (81, 3)) + (((99, 4), (100, 4)) if tier == "thorough" else ()):
            out.append(("%s/line%d_k%d" % (est, n, k), ("est", est, "rook:1x%d" % n, 10 + k, 2)))
    return out


def ref_optimk(tr, r=None):
    """Mojena-type rule as coded at the pinned commit, written from its definition"""
    N = len(tr)
    if not r:
        r = N // 4 if N // 4 >= 2 else N
    j = 0
    while j < N - r:
        win = [tr[j + t] for t in range(r)]
        m = sum(win) / r
        sd = (sum((v - m) ** 2 for v in win) / r) ** 0.5
        z = [tr[r - 1 + t] for t in range(j + 1)]
        b = 6. / (r * (r * r - 1)) * (2 * sum((t + 1) * v for t, v in enumerate(z)) - (r + 1) * sum(z))
        gap = tr[j + r] - (m - b - (r - 1) * b / 2 - 2.75 * sd)
        j += 1
        if not gap < 0:
            break
    else:
        return max(j + r, 2), np.inf
    return max(j + r, 2), abs(gap)


def robust_ok(tr, r, got):
    """got is the rule's answer, allowing a rounding tie on any comparison"""
    N = len(tr)
    if not r:
        r = N // 4 if N // 4 >= 2 else N
    sc = max(abs(v) for v in tr) + 1
    j = 0
    while j < N - r:
        win = tr[j:j + r]
        m = sum(win) / r
        sd = (sum((v - m) ** 2 for v in win) / r) ** 0.5
        z = tr[r - 1:r + j]
        b = 6. / (r * (r * r - 1)) * (2 * sum((t + 1) * v for t, v in enumerate(z)) - (r + 1) * sum(z))
        gap = tr[j + r] - (m - b - (r - 1) * b / 2 - 2.75 * sd)
        j += 1
        if abs(gap) <= 1e-9 * sc:
            if got == max(j + r, 2):
                return True
        elif gap > 0:
            break
    return got == max(j + r, 2)


def make(lat, s, est):
    w = worlds.make_w(lat)
    M = worlds.dense(w) != 0
    if not (M == M.T).all():
        import libpysal
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            M = M | M.T
            w = libpysal.weights.W({i: np.flatnonzero(M[i]).tolist() for i in range(len(M))}, silence_warnings=True)
            w.transform = "r"
    n = w.n
    g = np.random.default_rng(31 + s)
    X = g.normal(size=(n, s - 10 if s > 10 else 1 + s % 2))
    Y = g.normal(size=(n, 1)); Q = np.hstack([Y + g.normal(size=(n, 1)), g.normal(size=(n, 1))])
    part = (np.arange(n) * 3 // n)[:, None]
    y = X.sum(1, keepdims=True) * np.where(part == 0, 4., np.where(part == 1, -3., 1.)) + 2. * part + 0.5 * Y + 0.4 * g.normal(size=(n, 1))
    return w, y, X, Y, Q


OPTS = {
    "OLS": [dict(), dict(robust="white"), dict(spat_diag=True), dict(spat_diag=True, moran=True, vm=True), dict(white_test=True), dict(sig2n_k=False), dict(nonspat_diag=False), dict(name_ds="ds", name_w="ww"), dict(slx_lags=1), dict(latex=True)],
    "TSLS": [dict(), dict(robust="white"), dict(spat_diag=True), dict(vm=True), dict(sig2n_k=False), dict(name_ds="ds", name_w="ww"), dict(slx_lags=1), dict(latex=True)],
    "GM_Lag": [dict(), dict(robust=None), dict(sig2n_k=True), dict(w_lags=2), dict(lag_q=False), dict(vm=True), dict(spat_diag=False), dict(spat_impacts=["simple", "full"]), dict(name_ds="ds", name_w="ww"), dict(hard_bound=False, latex=True)],
}


def run(p, T):
    if p[0] == "k":
        _, d0, d1, N = p
        for L in range(1, N + 1):
            if L <= 2 and (d0, d1) != (0., 0.) and L == 1:
                continue
            for ds in itertools.product((0., .5, 3., 30.), repeat=max(0, L - 3)):
                ds = (d0, d1)[:max(0, L - 1)] + ds
                tr = [1000.]
                for d in ds:
                    tr.append(tr[-1] - d)
                for r in (None,) + tuple(range(2, L + 1)):
                    got = spreg.optim_k(list(tr), r) if r else spreg.optim_k(list(tr))
                    T.compared += 1
                    if not robust_ok(tr, r, got):
                        T.fail("choice", "trace %s window %s gave %s" % (tr, r, got))
                    elif not 2 <= got <= max(2, L):
                        T.fail("range", "trace %s window %s gave %s" % (tr, r, got))
                T.state(tuple(tr))
        T.call()
        return
    if p[0] == "kreal":
        for s in range(p[1]):
            g = np.random.default_rng(s)
            for L in (1, 2, 3, 5, 7, 8, 12, 13, 20, 33):
                tr = np.sort(g.gamma(.3 + s % 4, 100, size=L))[::-1]
                T.state(s, L)
                for r in (None, 2, 3, 5):
                    if r and r > L:
                        continue
                    T.eq("s%d_L%d_r%s" % (s, L, r), int(spreg.optim_k(tr.tolist(), r)), ref_optimk(tr.tolist(), r)[0])
                    T.eq("s%d_L%d_r%s/array" % (s, L, r), int(spreg.optim_k(tr, r)), ref_optimk(tr.tolist(), r)[0])
        T.call()
        return
    _, est, lat, s, nc = p
    w, y, X, Y, Q = make(lat, s, est)
    n, k = X.shape
    cls = {"OLS": spreg.OLS_Endog_Regimes, "TSLS": spreg.TSLS_Endog_Regimes, "GM_Lag": spreg.GM_Lag_Endog_Regimes}[est]
    rcls = {"OLS": spreg.OLS_Regimes, "TSLS": spreg.TSLS_Regimes, "GM_Lag": spreg.GM_Lag_Regimes}[est]
    base = {"OLS": spreg.ols.BaseOLS, "TSLS": spreg.twosls.BaseTSLS, "GM_Lag": spreg.twosls_sp.BaseGM_Lag}[est]
    quorum = {"OLS": 4, "TSLS": 7, "GM_Lag": 8}[est] + (s % 2) - (3 if nc is None and est != "OLS" else 0)
    A = np.hstack([X, Y]) if est == "TSLS" else X
    std = (A - A.mean(0)) / A.std(0)
    dreg = {"reg": base, "y": y, "x": X}
    if est == "TSLS":
        dreg.update(yend=Y, q=Q)
    if est == "GM_Lag":
        dreg["w"] = w
    sep = est != "GM_Lag"

    def skater(q, m):
        return quiet(lambda: Skater_reg().fit(m, w, std, dict(dreg), quorum=q, trace=True))

    def expected(q, m):
        """clusters, score, trace, or an exception"""
        try:
            if m:
                r = skater(q, m)
                return np.array(r.current_labels_), r._trace
            top = int(n * 0.7 // q)
            if top < 2:
                return ValueError("quorum"), None
            r = skater(q, top)
            tr = [t[1][2] for t in r._trace[1:]]
            return np.array(r._trace[ref_optimk(tr)[0] - 1][0]), r._trace
        except Exception as e:
            return e, None

    def call(q, m, XX=X, YY=Y, QQ=Q, yy=y, **kw):
        a = (yy, XX, YY, QQ, w) if est == "TSLS" else (yy, XX, w)
        if q is not None:
            kw["quorum"] = q
        return quiet(lambda: cls(*a, n_clusters=m, **kw))

    def compare(name, m, lab, trace, kw, XX=X, YY=Y, QQ=Q, yy=y, kept=True, dropped=False):
        a = (yy, XX, YY, QQ) if est == "TSLS" else (yy, XX)
        try:
            ref = quiet(lambda: rcls(*a, regimes=lab, w=w, name_regimes="Skater_reg", constant_regi="many", cols2regi="all", regime_err_sep=sep, **kw))
        except Exception as e:
            # too few observations in some cluster for this option: the regimes model itself cannot be estimated
            T.raises(name + "/raises_as_regimes", m, type(e))
            return False
        m = m()
        T.true(name + "/clusters", np.array_equal(np.asarray(m.clusters), lab), "%s want %s" % (m.clusters, lab))
        tr = [float(t[1][2]) for t in trace[1:]]
        T.close(name + "/score", m.score, tr[len(set(lab.tolist())) - 2], 1e-12)
        if kept:
            T.close(name + "/SSR", m.SSR, tr, 1e-12)
            T.true(name + "/trace", len(m._trace) == len(trace) and all(np.array_equal(a[0], b[0]) for a, b in zip(m._trace, trace)))
        fa, fb = deep.flatten(ref), deep.flatten(m)
        for fl in (fa, fb):
            for key in list(fl):
                if key.startswith(("._trace", ".SSR", ".score", ".clusters", ".summary", ".warning")):
                    del fl[key]
        d = deep.diff(fa, fb, rtol=1e-9)
        T.compared += 1
        if d:
            T.fail(name + "/model", str(d[:4])[:600])
        # the printed report: same lines, and the score of the clustering as the overall SSR
        rep = [[l for l in str(o.summary).splitlines() if l.strip() and "Overall SSR" not in l and "removed for being constant" not in l] for o in (ref, m)]
        if rep[0] != rep[1]:
            T.fail(name + "/report", str([(a_, b_) for a_, b_ in itertools.zip_longest(*rep) if a_ != b_][:4])[:600])
        T.true(name + "/report_score", "%14.2f" % m.score in [l[-14:] for l in m.summary.splitlines() if "Overall SSR" in l] or kw.get("latex"), m.score)
        if dropped:
            T.true(name + "/announced", "removed for being constant" in m.summary)

    lab, trace = expected(quorum, nc)
    if isinstance(lab, Exception):
        T.raises("raises", lambda: call(quorum, nc))
        return
    for i, kw in enumerate(OPTS[est]):
        kw = dict(kw)
        T.state(est, i)
        T.call()
        if compare("opt%d" % i, lambda: call(quorum, nc, **kw), lab, trace, kw) is False and i == 0:
            return
    # trace flag
    m = call(quorum, nc, trace=False)
    compare("notrace", lambda: m, lab, trace, {}, kept=nc is None)
    if nc:
        T.true("notrace/nothing_kept", not hasattr(m, "_trace") and not hasattr(m, "SSR"))
    # input forms
    nm = ["a%d" % j for j in range(k)]
    kw = {"name_y": "dep", "name_x": nm}
    if est == "TSLS":
        kw.update(name_yend=["en"], name_q=["q1", "q2"])
    compare("names", lambda: call(quorum, nc, **{k_: (list(v) if isinstance(v, list) else v) for k_, v in kw.items()}), lab, trace, {k_: (list(v) if isinstance(v, list) else v) for k_, v in kw.items()})
    f = dict(XX=pd.DataFrame(X, columns=nm), yy=pd.Series(y.ravel(), name="dep"), YY=pd.DataFrame(Y, columns=["en"]), QQ=pd.DataFrame(Q, columns=["q1", "q2"]))
    compare("pandas", lambda: call(quorum, nc, **f), lab, trace, {}, **f)
    if k == 1:
        f = dict(XX=pd.Series(X.ravel(), name="a0"), yy=pd.Series(y.ravel(), name="dep"))
        compare("series", lambda: call(quorum, nc, **f), lab, trace, {}, **f)
    if est != "OLS":
        m = call(quorum, nc, name_regimes="zones")
        T.true("name_regimes", "zones" in m.summary and "Skater_reg" not in m.summary and m.name_regimes == "zones", m.summary[:300])
    # a constant among the regressors is dropped
    XC = np.hstack([np.ones((n, 1)) * 7, X])
    compare("constant", lambda: call(quorum, nc, XX=XC), lab, trace, {}, XX=X, dropped=True)
    compare("constant_named", lambda: call(quorum, nc, XX=XC, name_x=["seven"] + nm), lab, trace, {"name_x": nm}, XX=X, dropped=True)
    # arguments which do not apply are announced and have no effect
    for extra in ({"constant_regi": "one"}, {"cols2regi": [True] * k}, {"regime_err_sep": not sep}):
        m = call(quorum, nc, **extra)
        T.close("ignored/%s" % list(extra)[0], m.betas, call(quorum, nc).betas, 1e-12)
        T.true("ignored/%s/announced" % list(extra)[0], "Only the following values are accepted" in m.summary or "Only the following values" in str(getattr(m, "warning", "")), m.summary[:300])
    # default quorum, and infeasible requests
    q0 = max((k + 1) * 10, 30)
    for m_ in (nc, 2):
        l2, t2 = expected(q0, m_)
        if isinstance(l2, Exception):
            T.raises("default_quorum/%s" % m_, lambda: call(None, m_))
        elif l2 is not None and len(set(l2.tolist())) > 1:
            compare("default_quorum/%s" % m_, lambda: call(None, m_), l2, t2, {})
    T.raises("quorum_too_large", lambda: call(n, nc))
