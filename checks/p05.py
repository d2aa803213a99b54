"""P05: GMM spatial error estimators: moment criterion minimised, filtered (2S)LS coefficients, variance formula."""
import itertools
import numpy as np
import ref, worlds, zcheck
import ref_gmm as gm
from p01 import masks, slx_names

META = {"rule": "a state is one (method, model, weights, k, slx, iterations, step1c, A1, inverse method) combination executed on the real estimator; lambda is compared with the exact global minimiser of the quartic moment criterion",
        "assumptions": ["the reported lambda may differ from the exact minimiser by the stopping tolerance of a quasi-Newton search: 5e-3, or 2e-5 in the normalised criterion value",
                        "at max_iter>1 the iteration count may legitimately differ by the optimiser tolerance; all quantities are then checked at the reported iteration"]}
LT = 5e-3


def cases(tier):
    out = []
    ws = ["rook:6x6", "knn:6x7", "odd:6x6"] + (["queen:7x7", "isl:6x7", "strid:6x6", "rooks:6x6", "ring:6x6"] if tier == "thorough" else ["isl:6x7"])
    for wk in ws:
        for lam in ((-0.5, 0.6) if tier == "quick" else (-0.7, -0.3, 0.0, 0.5, 0.8)):
            for k in ((1, 2) if tier == "quick" else (1, 2, 3)):
                for model, e in (("error", 0), ("endog", 1), ("endog", 2), ("combo", 0), ("combo", 1)):
                    if tier == "quick" and (k == 2) != (lam > 0) and e == 2:
                        continue
                    out.append(("%s/%s/lam%g/k%d/e%d" % (model, wk, lam, k, e), (model, wk, lam, k, e, tier)))
    for model, k, e in (("error", 5, 0), ("endog", 3, 3), ("combo", 4, 0), ("combo", 3, 2)):
        out.append(("%s/rook:7x7/lam0.4/k%d/e%d" % (model, k, e), (model, "rook:7x7", 0.4, k, e, tier)))
    for wk in ("rook:6x6", "odd:6x6"):
        out.append(("hetclip/" + wk, ("hetclip", wk)))
        out.append(("hardbound/" + wk, ("hardbound", wk)))
        out.append(("rhobound/" + wk, ("rhobound", wk)))
        for model in ("error", "endog", "combo"):
            for method in ("het", "hom"):
                for regi in (0, 1):
                    out.append(("epsilon/%s/%s/%s/r%d" % (wk, model, method, regi), ("epsilon", wk, model, method, regi)))
    return out


def design(wd, model, slx, mask, w_lags=1, lag_q=True):
    W = wd.W
    if model == "combo":
        E, Q = (wd.yend, wd.q) if wd.yend.shape[1] else (None, None)
        Xr, Er, inst = ref.gm_lag_parts(wd.y, wd.X, W, E, Q, w_lags, lag_q, slx, mask)
        return gm.Data(wd.y, Xr, W, Er, np.hstack([Xr, inst]))
    Xr = np.hstack([wd.X[:, :1], ref.slx(W, wd.x, slx, mask)])
    if model == "endog":
        return gm.Data(wd.y, Xr, W, wd.yend, np.hstack([Xr, wd.q]))
    return gm.Data(wd.y, Xr, W)


def lam_ok(T, name, lam, f, loc, exact=True):
    """lam is a minimiser of criterion f"""
    T.true(name + "bounds", abs(lam) <= 0.99 + (1e-12 if exact else 1e-6), lam)
    best = min(loc, key=lambda l: abs(l - lam))       # the criterion is a quartic: at most two (local) minimisers
    rng = max(f(l) for l in np.linspace(-.99, .99, 21)) - f(best)
    tolc = 5e-3 if abs(best) >= 0.95 else 2e-5      # criteria with a minimum at the boundary are nearly flat there
    ok = (abs(lam - best) <= LT or abs(f(lam) - f(best)) <= tolc * rng) and (best == loc[0] or f(lam) <= f(0.0) + 1e-9 * rng)
    T.true(name + "min", ok, "lambda %r; minimisers %r, criterion excess %.3g of range %.3g" % (lam, loc, f(lam) - f(best), rng))
    return ok


def judge(T, key, m, d, method, model, opt, names, ntrace):
    b = np.asarray(m.betas, float)
    T.eq(key + "nbetas", b.shape, (d.k + 1, 1))
    bb, lam = b[:-1], float(b[-1, 0])
    clip = method == "het" and model == "combo"
    if method == "kp98":
        r = gm.kp98(d)
    elif method == "het":
        r = gm.het(d, opt["max_iter"], step1c=opt["step1c"], clip=clip)
    else:
        r = gm.hom(d, opt["max_iter"], A1=opt["A1"])
    tol = max(1e-7, 1e-15 * np.linalg.cond((d.H if d.H is not None else d.X).T @ (d.H if d.H is not None else d.X)))
    if tol > 1e-4:
        return
    # coefficients: filtered (2S)LS solution at an admissible lambda of the prescribed step
    used = gm.used_lambda(d, bb, r.lam_used, clip)
    bu = d.fit(used)
    if method == "het":
        bu = r.cl(bu)
    T.close(key + "betas", bb, bu, 50 * tol)
    if method == "kp98":
        lam_ok(T, key + "lambda/", lam, *r.crits[0])
        T.close(key + "lambda_used", used, lam, 1e-5, atol=1e-5)
    else:
        if opt["max_iter"] == 1:
            T.eq(key + "iteration", m.iteration, 1)
            lam_ok(T, key + "lambda_first/", used, *r.crits[-2], exact=False)
        else:
            T.true(key + "iteration", 1 <= m.iteration <= opt["max_iter"], m.iteration)
            if all(len(l_) == 1 and abs(l_[0]) < 0.9 for _, l_ in r.crits):     # unambiguous trace
                T.true(key + "iterated", abs(m.iteration - r.iteration) <= 2, "%r want about %r" % (m.iteration, r.iteration))
                T.close(key + "lambda_prev", used, r.lam_used, 0, atol=5 * LT)
            conv = abs(lam - used)
            if m.iteration < opt["max_iter"]:
                T.true(key + "converged", conv <= 1e-4, conv)
        f, loc = gm.het_last_crit(d, bb, used) if method == "het" else gm.hom_last_crit(d, bb, used, opt["A1"])
        lam_ok(T, key + "lambda/", lam, f, loc)
        T.true(key + "iter_stop", isinstance(m.iter_stop, str) and ("aximum" in m.iter_stop) == (m.iteration == opt["max_iter"]), m.iter_stop)
    # variance at the reported estimates
    s2 = None
    if method == "kp98":
        vm, s2 = gm.kp98_vm(d, bb, lam)
    elif method == "het":
        vm = gm.het_vm(d, bb, lam)
    else:
        vm, s2 = gm.hom_vm(d, bb, lam, opt["A1"])
    sc = np.sqrt(np.outer(np.diag(vm), np.diag(vm)))
    mv = np.asarray(m.vm, float)
    if T.true(key + "vmshape", mv.shape == vm.shape, mv.shape):
        T.close(key + "vm", mv / sc, vm / sc, 1000 * tol, atol=1000 * tol)
        zcheck.table(T, key, m, b, mv, names, rtol=1e-9)
    if s2 is not None:
        T.close(key + "sig2", m.sig2, s2, 100 * tol)
    u = d.y - d.Z @ bb
    T.close(key + "u", m.u, u, 100 * tol)
    T.close(key + "predy", m.predy, d.Z @ bb, 100 * tol)
    T.close(key + "e_filtered", m.e_filtered, gm.filt(d.W, lam, u), 100 * tol)
    T.close(key + "pr2", m.pr2, np.corrcoef(d.y.ravel(), (d.Z @ bb).ravel())[0, 1] ** 2, 100 * tol)
    if model == "combo":
        rho = float(bb[-1, 0])
        T.close(key + "rho", m.rho, rho, 1e-12)
        if abs(rho) < 1:
            pe = np.linalg.solve(np.eye(d.n) - rho * d.W, d.Z @ bb - rho * (d.W @ d.y))
            T.close(key + "predy_e", m.predy_e, pe, 1000 * tol, atol=1e-6)
            T.close(key + "e_pred", m.e_pred, d.y - pe, 1000 * tol, atol=1e-6)
            T.close(key + "pr2_e", m.pr2_e, np.corrcoef(d.y.ravel(), pe.ravel())[0, 1] ** 2, 1e-4)


def make(method, model):
    import spreg
    suf = {"kp98": "", "het": "_Het", "hom": "_Hom"}[method]
    return getattr(spreg, {"error": "GM_Error", "endog": "GM_Endog_Error", "combo": "GM_Combo"}[model] + suf)


def optlist(method, model, tier):
    if method == "kp98":
        return [{}]
    if method == "het":
        o = []
        for mi, s1 in itertools.product((1, 3), (False, True)):
            for inv in (("power_exp", "true_inv") if s1 and model != "error" else (None,)):
                o.append({"max_iter": mi, "step1c": s1, **({"inv_method": inv} if inv else {})})
        return o
    return [{"max_iter": mi, "A1": a} for mi in (1, 3) for a in ("hom_sc", "hom", "het")]


def run(case, T):
    if case[0] == "hetclip":
        return hetclip(case[1], T)
    if case[0] == "rhobound":
        return rhobound(case[1], T)
    if case[0] == "hardbound":
        return hardbound(case[1], T)
    if case[0] == "epsilon":
        return epsilon(case[1:], T)
    model, wk, lam, k, e, tier = case
    # rescale the endogenous variables so that their coefficients stay inside the range the HET endogenous code keeps (see hetclip)
    wd = worlds.World(wk, k=k, e=e, m=e + 1 if e else 0, rho=0.3 if model == "combo" else 0.0, lam=lam, seed=11 * k + e)
    if e:
        wd.yend = 4 * wd.yend
    W = wd.W
    nx, ne, nq = ["al", "be", "ga", "de", "ep"][:k], ["en1", "en2", "en3"][:e], ["qa", "qb", "qc", "qd", "qe"][:wd.q.shape[1]]
    base = {"CONSTANT": np.ones((wd.n, 1)), "Y": wd.y}
    for n_, a in ((nx, wd.x), (ne, wd.yend), (nq, wd.q)):
        for j, s in enumerate(n_):
            base[s] = a[:, j]
    variants = [(0, "All", 1, True)]
    for s in (1, 2):
        variants += [(s, mk, 1, True) for mk in masks(k)]
    if model == "combo":
        variants += [(0, "All", 2, True)] + ([(0, "All", 1, False), (0, "All", 2, False)] if e else [])
    for slx, mask, w_lags, lag_q in variants:
        d = design(wd, model, slx, mask, w_lags, lag_q)
        A = d.H if d.H is not None else d.X
        if A.shape[1] > wd.n - 6 or np.linalg.matrix_rank(A / np.abs(A).max(0)) < A.shape[1] or np.linalg.cond(A.T @ A) > 1e10:
            continue
        for method in ("kp98", "het", "hom"):
            cls = make(method, model)
            for opt in (optlist(method, model, tier) if (slx, w_lags, lag_q) == (0, 1, True) or tier == "thorough" else optlist(method, model, tier)[:1]):
                kw = dict(opt)
                kw.update(slx_lags=slx, slx_vars=mask, name_y="Y", name_x=list(nx))
                if e:
                    kw.update(yend=wd.yend, q=wd.q, name_yend=list(ne), name_q=list(nq))
                if model == "combo":
                    kw.update(w_lags=w_lags, lag_q=lag_q)
                m = cls(wd.y, wd.x, w=wd.w, **kw)
                T.call(); T.state(case, slx, str(mask), w_lags, lag_q, method, repr(sorted(opt.items())))
                mk = [True] * k if isinstance(mask, str) else mask
                names = ["CONSTANT"] + nx + slx_names(nx, mk, slx) + ne + (["W_Y"] if model == "combo" else []) + ["lambda"]
                key = "%s/slx%d%s/wl%d%s/%s/" % (method, slx, "" if isinstance(mask, str) else "".join("01"[i] for i in mask), w_lags, "" if lag_q else "nolq",
                                                "-".join("%s" % v for _, v in sorted(opt.items())))
                if model != "error" and method == "het" and not (abs(d.fit(0.0)[-1, 0]) < 0.85 and abs(np.asarray(m.betas)[-2, 0]) < 0.85) and model != "combo":
                    continue
                judge(T, key, m, d, method, model, opt, names, 0)
                if model != "error":
                    if hasattr(m, "h"):
                        zcheck.names_denote(T, key + "name_h/", list(m.name_h), np.asarray(m.h), base, W)
                        srt = lambda A: A[:, np.lexsort(np.round(A[:3], 6))]
                        if T.true(key + "n_instruments", m.h.shape == d.H.shape, m.h.shape):
                            T.close(key + "instruments", srt(np.asarray(m.h)), srt(d.H), 1e-9)
                    else:
                        T.eq(key + "n_name_h", len(m.name_h), d.H.shape[1])


def hetclip(wk, T):
    """coefficient of the last endogenous variable is an ordinary coefficient: scale so that it is above 1"""
    wd = worlds.World(wk, k=1, e=1, m=2, rho=0.0, lam=0.4, seed=3)
    import spreg
    for s in (0.2, 0.05):
        d = gm.Data(wd.y, wd.X, wd.W, s * wd.yend, np.hstack([wd.X, wd.q]))
        if abs(d.fit(0.0)[-1, 0]) < 1:
            continue
        m = spreg.GM_Endog_Error_Het(wd.y, wd.x, yend=s * wd.yend, q=wd.q, w=wd.w)
        T.call(); T.state(wk, s)
        r = gm.het(d)
        T.close("clipped", m.betas[:-1], d.fit(gm.used_lambda(d, np.asarray(m.betas)[:-1], r.lam_used)), 1e-5)


def epsilon(case, T):
    """iterations end at the first one that moves lambda by no more than epsilon, or at max_iter"""
    import spreg
    wk, model, method, regi = case
    M = 9
    for lam in (-0.5, 0.7):
        wd = worlds.World(wk, k=1, e=1, m=2, rho=0.3 if model == "combo" else 0.0, lam=lam, seed=7)
        n = wd.n
        kw = dict(w=wd.w)
        if model == "endog" or (model == "combo" and lam > 0):
            kw.update(yend=4 * wd.yend, q=wd.q)
        cls = make(method, model)
        if regi:
            cls = getattr(spreg, cls.__name__ + "_Regimes")
            kw["regimes"] = ["u" if i % 6 < 3 else "v" for i in range(n)]
        steps = {i: cls(wd.y, wd.x, max_iter=i, epsilon=-1.0, **kw) for i in range(1, M + 1)}
        L = [float(np.asarray(steps[i].betas)[-1, 0]) for i in range(1, M + 1)]
        for i in range(1, M + 1):
            T.eq("lam%g/all_%d" % (lam, i), steps[i].iteration, i)
        for eps in (0.5, 3e-2, 1e-2, 1e-3, 1e-5):
            for mi in (2, 3, M):
                d = [abs(L[j] - L[j - 1]) for j in range(1, mi)]
                if any(0.8 * eps < v < 1.25 * eps for v in d):
                    continue
                want = next((j + 2 for j, v in enumerate(d) if v <= eps), mi)
                m = cls(wd.y, wd.x, max_iter=mi, epsilon=eps, **kw)
                T.call(); T.state(case, lam, eps, mi)
                key = "lam%g/eps%g/mi%d/" % (lam, eps, mi)
                if m.iteration == 1 and mi > 1:             # the first move is from the preliminary estimate
                    T.true(key + "first", abs(L[0]) - 1 <= eps and abs(L[1] - L[0]) <= 3 * eps + 1e-2, (L, eps))
                    T.close(key + "betas", m.betas, steps[1].betas, 1e-12)
                    continue
                if T.eq(key + "iterations", m.iteration, want):
                    T.close(key + "betas", m.betas, steps[want].betas, 1e-12)
                    T.close(key + "vm", m.vm, steps[want].vm, 1e-12)
                T.true(key + "iter_stop", ("aximum" in m.iter_stop) == (m.iteration == mi), m.iter_stop)


def rhobound(wk, T):
    """combo models whose estimate of rho leaves (-1, 1): no reduced form, a warning, and a refusal under hard_bound; otherwise hard_bound changes nothing"""
    import spreg
    seen, inside = set(), set()
    for seed in range(8):
        wd = worlds.World(wk, k=1, e=0, m=0, seed=seed, rho=0.0)
        n = wd.n
        t = np.arange(n).reshape(-1, 1) * 1.0
        lab = [i * 2 // n for i in range(n)]
        half = np.array(lab).reshape(-1, 1) * 1.0
        for tag, y in (("none", wd.y), ("all", wd.y + 4 * t), ("second", wd.y + 4 * t * half), ("first", wd.y + 4 * t * (1 - half))):
            for fam in ("", "_Het", "_Hom"):
                forms = [("plain", "GM_Combo" + fam, {})]
                if fam:
                    forms += [("joint", "GM_Combo%s_Regimes" % fam, dict(regimes=lab)), ("sep", "GM_Combo%s_Regimes" % fam, dict(regimes=lab, regime_err_sep=True, regime_lag_sep=True))]
                for form, cls, kw in forms:
                    if "Hom" in cls:
                        kw = dict(kw, A1="het")
                    f = lambda **o: getattr(spreg, cls)(y, wd.x, w=wd.w, **kw, **o)
                    try:
                        m = f()
                    except np.linalg.LinAlgError:
                        continue
                    T.call(); T.state(wk, seed, tag, fam, form)
                    key = "%s/%s/%s/" % (fam, form, tag)
                    parts = list(m.multi.values()) if form == "sep" else [m]
                    out = [abs(float(np.asarray(p.rho).item())) >= 1 for p in parts]
                    lam_out = any(abs(float(np.asarray(p.betas)[-1, 0])) >= 0.99 for p in parts)
                    for i, (p, o) in enumerate(zip(parts, out)):
                        T.true(key + "warn%d" % i, o == ("lag coefficient is outside the boundary" in (getattr(p, "warning", "") or "")), (o, getattr(p, "warning", None)))
                        if o:
                            T.close(key + "predy_e%d" % i, p.predy_e, np.zeros(len(p.predy_e)))
                    if any(out):
                        seen.add((fam, form))
                        T.raises(key + "hard", lambda: f(hard_bound=True))
                    elif not lam_out:
                        try:
                            m2 = f(hard_bound=True)
                        except Exception:               # the first-stage estimate of lambda may be outside although the final one is not
                            continue
                        inside.add((fam, form))
                        T.close(key + "free", m2.betas, m.betas, rtol=0, atol=0)
    T.true("covered", seen >= {("", "plain"), ("_Hom", "plain"), ("_Hom", "joint"), ("_Hom", "sep"), ("_Het", "joint")}, sorted(seen))      # _Het plain and separate are clipped: finding hetclip
    T.true("inside", len(inside) == 7, sorted(inside))


def hardbound(wk, T):
    """criterion minimised on the boundary: reported value stays inside [-.99,.99]; hard_bound refuses it"""
    import spreg
    seen = seen2 = 0
    for seed in range(10):
        for sgn in (1,):
            wd = worlds.World(wk, k=1, e=1, m=2, rho=0.0, lam=0.0, seed=seed)
            n = wd.n
            # strongly trending disturbance: the moment criterion has its minimum at the boundary
            t = np.linspace(-1, 1, n).reshape(-1, 1)
            y = wd.beta[0] + wd.x @ wd.beta[1:] + 0.7 * wd.yend + 60 * t + 40 * t ** 2
            dd = {"error": gm.Data(y, wd.X, wd.W), "endog": gm.Data(y, wd.X, wd.W, wd.yend, np.hstack([wd.X, wd.q]))}
            for model, d in dd.items():
                for method in ("kp98", "het", "hom"):
                    if method == "het" and model == "endog":
                        continue
                    r = gm.kp98(d) if method == "kp98" else gm.het(d) if method == "het" else gm.hom(d)
                    if abs(r.lam) < 0.99 and all(abs(loc[0]) < 0.97 for _, loc in r.crits):
                        continue
                    cls = make(method, model)
                    kw = dict(yend=wd.yend, q=wd.q) if model == "endog" else {}
                    m = cls(y, wd.x, w=wd.w, **kw)
                    T.call(); T.state(wk, seed, model, method)
                    lam = float(np.asarray(m.betas)[-1, 0])
                    T.true("%s/%s/in" % (model, method), abs(lam) <= 0.99 + 1e-12, lam)
                    if abs(lam) >= 0.99:
                        seen += 1
                        T.raises("%s/%s/hard" % (model, method), lambda: cls(y, wd.x, w=wd.w, hard_bound=True, **kw))
                    if seed > 4:
                        continue
                    rcls = getattr(spreg, cls.__name__ + "_Regimes")
                    lab = [i * 2 // n for i in range(n)]
                    for sep in (False, True):               # separate: the trend restarts in each regime
                        y2 = y if not sep else wd.beta[0] + wd.x @ wd.beta[1:] + 0.7 * wd.yend + np.array([60 * t_ + 40 * t_ * t_ for t_ in np.tile(np.linspace(-1, 1, n // 2), 2)]).reshape(-1, 1)
                        for e_ in ((0, 1) if sep else (0,)):
                            if e_:
                                y2 = y2 * np.array([[1.0 if l == 0 else 0.0] for l in lab]) + np.array([[0.0 if l == 0 else 1.0] for l in lab]) * (wd.y + 1)
                            m = rcls(y2, wd.x, regimes=lab, w=wd.w, regime_err_sep=sep, **kw)
                            T.call(); T.state(wk, seed, model, method, sep, e_)
                            ls = [float(np.asarray(r_.betas)[-1, 0]) for r_ in m.multi.values()] if sep else [float(np.asarray(m.betas)[-1, 0])]
                            T.true("%s/%s/regimes_in" % (model, method), max(map(abs, ls)) <= 0.99 + 1e-12, ls)
                            if max(map(abs, ls)) >= 0.99:
                                seen2 += 1
                                T.raises("%s/%s/regimes_hard%d%d" % (model, method, sep, e_), lambda: rcls(y2, wd.x, regimes=lab, w=wd.w, regime_err_sep=sep, hard_bound=True, **kw))
    T.true("covered", seen > 0 and seen2 > 0, (seen, seen2))
