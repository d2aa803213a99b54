"""P09: every reported Chow/Wald statistic equals the Wald quadratic form of the named coefficients."""
import itertools
import numpy as np
from scipy import stats
import worlds, regs
import p07, p08

META = {"rule": "a state is one regimes estimation (estimator, weights, layout with 2-5 regimes, mask, constant option, lagged regressors, options) whose whole Chow table is compared with Wald statistics computed from the named coefficients and the variance matrix with every regime as reference, or one (kr, kf, nr) restriction system",
        "assumptions": ["coefficients, names and variance matrix are decided by P07/P08"]}


def cases(tier):
    out = []
    ws = ["rook:6x8"] if tier == "quick" else ["rook:6x8", "odd:6x8", "knn:6x9"]
    ks = ["cols", "three", "four"] if tier == "quick" else ["cols", "three", "three_s", "four", "uneq", "flt"]
    for f in regs.FAM:
        for wk in ws:
            for rk in ks:
                for slx in (0, 1):
                    out.append(("joint/%s/%s/%s/slx%d" % (f, wk, rk, slx), ("joint", f, wk, rk, slx, tier)))
        out.append(("joint/%s/rook:8x10/five/slx0" % f, ("joint", f, "rook:8x10", "five", 0, tier)))
        out.append(("sep/%s/five/slx0" % f, ("sep", f, "rook:8x10", "five", 0, tier)))
        for rk in (["cols", "three_s"] if tier == "quick" else ["cols", "three_s", "rows_s", "uneq", "flt"]):
            for slx in (0, 1):
                out.append(("sep/%s/%s/slx%d" % (f, rk, slx), ("sep", f, ws[0], rk, slx, tier)))
    out.append(("fn", ("fn", tier)))
    return out


def run(case, T):
    if case[0] == "fn":
        return fn(T, case[1])
    kind, f, wk, rk, slx, tier = case
    RC, PC, e, lag, sepkw = regs.FAM[f]
    if kind == "joint":
        wd, lab = p08.build(f, wk, "cols" if rk == "four" else rk, 5)
        if rk == "four":
            b = int(wk.split("x")[1])
            lab = [(i // b) // 3 * 2 + (i % b) // (b // 2 + b % 2) for i in range(wd.n)]
        es = {0: [0], 1: [1, 2], None: [0, 1]}[e]
    else:
        wd, lab = p07.build(f, wk, rk, 3)
        es = {0: [0], 1: [1], None: [0, 1]}[e]
    for ee in es:
        kx = 2 * (1 + slx)
        base = dict(name_y="yy", name_x=["al", "be"], name_regimes="reg")
        if f in regs.NEEDS_W or slx:
            base["w"] = wd.w
        if slx:
            base["slx_lags"] = slx
        if ee:
            base.update(yend=wd.yend[:, :ee], q=wd.q[:, :ee + 1], name_yend=["ena", "enb"][:ee], name_q=["qa", "qb", "qc"][:ee + 1])
        if f in ("gmlag", "mllag"):
            base["spat_impacts"] = None
        if kind == "sep":
            for opt in p07.OPTS[f][:2]:
                if not (ee == 0 and opt.get("lag_q") is False):
                    one(T, "e%d/%s/" % (ee, opt), f, wd, lab, dict(base, **sepkw, **opt))
            continue
        masks = list(itertools.product([True, False], repeat=kx + ee))
        if slx or ee > 1:
            masks = [m for i, m in enumerate(masks) if tier == "thorough" or i % 5 == 0 or sum(m) in (1, kx + ee)]
        for mask in masks:
            for cons in ("many", "one"):
                if not any(mask) and cons == "one":
                    continue
                opts = [o for o in p08.OPTS[f] if not o.get("regime_lag_sep") and o.get("robust") != "hac" and not (ee == 0 and o.get("lag_q") is False)]
                for opt in opts[:1 if (slx or tier == "quick") else None]:
                    full = all(mask) and cons == "many"
                    if opt.get("regime_err_sep") and full:
                        continue
                    kw = dict(base, constant_regi=cons, cols2regi=list(mask), **opt)
                    if f in ("ols", "tsls", "gmlag"):
                        kw.setdefault("regime_err_sep", False)
                    one(T, "e%d/%s%s/%s/" % (ee, cons, "".join("01"[v] for v in mask), ",".join("%s=%s" % kv for kv in sorted(opt.items()))), f, wd, lab, kw)


def one(T, key, f, wd, lab, kw):
    kw = dict(kw, **{q: list(kw[q]) for q in ("name_x", "name_yend", "name_q") if q in kw})
    try:
        m = regs.cls(regs.FAM[f][0])(wd.y, wd.x, regimes=list(lab), **kw)
    except np.linalg.LinAlgError:
        T.state(key, "singular")        # design collinear for this layout: nothing to test
        return
    T.call(); T.state(key, f)
    rset = sorted(set(lab))
    R = ["%s" % (int(r) if isinstance(r, float) else r) for r in rset]
    joint = not hasattr(m, "multi")
    flat = lambda L: [x for v in L for x in (flat(v) if isinstance(v, list) else [v])]
    if f in ("ols", "mlerr", "error", "error_het", "error_hom", "mllag"):
        names = flat(m.name_x)
    else:
        names = flat(m.name_z)
    b, V = np.asarray(m.betas, float).ravel(), np.asarray(m.vm, float)
    if len(b) != len(V):        # no variance for lambda
        keep = [i for i, v in enumerate(names) if v != "lambda" and not v.endswith("_lambda")]
        names, b = [names[i] for i in keep], b[keep]
    if not T.eq(key + "sizes", (len(names), len(b)), (len(V), len(V))):
        return
    pos = {v: i for i, v in enumerate(names)}
    base = [v[len(R[0]) + 1:] for v in names if v.startswith(R[0] + "_")]
    want = {}
    rows = []
    for v in base:
        idx = [pos["%s_%s" % (r, v)] for r in R]
        vals = []
        for ref in range(len(R)):
            D = np.zeros((len(R) - 1, len(b)))
            for t, j in enumerate(j for j in range(len(R)) if j != ref):
                D[t, idx[ref]], D[t, idx[j]] = 1, -1
            vals.append(wald(D, b, V))
        rows.append(D)
        want[v] = vals[0]
        if np.linalg.cond(V) < 1e10:
            T.close(key + "reference_free", vals, [vals[0]] * len(R), 1e-6, atol=1e-9)
    df = len(R) - 1
    # lag of the response is named after y
    tab = m.output_chow
    tn = [str(v) for v in tab["var_names"]]
    wn = [v for v in base] + ["Global test"]
    T.eq(key + "names", sorted(tn), sorted(wn))
    T.eq(key + "nrows", np.shape(m.chow.regi), (len(base), 2))
    lo = 1e-6
    # known finding: with global exogenous columns the endogenous blocks are looked up too far to the left
    enames = (["ena", "enb"][:len(kw.get("name_yend", []))] + ["W_yy"]) if f not in ("mllag",) else []
    kg = 0
    if joint:
        kg = sum(1 for v in names if v.startswith("_Global_") and v[8:] not in enames + ["lambda"])
    bad, brows = {}, []
    for v, D in zip(base, rows):
        if v in enames and kg:
            D = np.roll(D, -kg, axis=1)
            bad[v] = wald(D, b, V)
        brows.append(D)
    if bad:
        bad["Global test"] = wald(np.vstack(brows), b, V)

    def off(v, got):
        if v in bad and abs(got - bad[v]) <= 1e-6 * (1 + abs(got)) and abs(got - (want[v] if v in want else J)) > 1e-6 * (1 + abs(got)):
            return T.fail(key + "endog_offset", "%s: %r" % (v, got)) or True
        return False
    J = wald(np.vstack(rows), b, V)
    for i, v in enumerate(tn):
        if v == "Global test":
            T.eq(key + "joint_df", int(tab["df"][i]), df * len(base))
            if off(v, float(tab["value"][i])) and off(v, float(m.chow.joint[0])):
                continue
            T.close(key + "joint", [tab["value"][i], tab["prob"][i]], [J, stats.chi2.sf(J, df * len(base))], lo, atol=1e-8)
            T.close(key + "joint_attr", [m.chow.joint[0], m.chow.joint[1]], [J, stats.chi2.sf(J, df * len(base))], lo, atol=1e-8)
        elif v in want:
            if off(v, float(tab["value"][i])) and off(v, float(m.chow.regi[i][0])):
                continue
            T.close(key + "wald", [tab["value"][i], tab["prob"][i]], [want[v], stats.chi2.sf(want[v], df)], lo, atol=1e-8)
            T.close(key + "regi_attr", m.chow.regi[i], [want[v], stats.chi2.sf(want[v], df)], lo, atol=1e-8)
            T.eq(key + "df", int(tab["df"][i]), df)
    # the printed table
    rowsp = [l.split() for l in m.summary.split("- CHOW TEST -")[1].split("\n")[2:2 + len(tn)]]
    T.eq(key + "printed_names", [" ".join(q[:-3]) for q in rowsp], tn)
    T.eq(key + "printed", [q[-3:] for q in rowsp], [["%d" % d, "%.3f" % v, "%.4f" % p] for d, v, p in zip(tab["df"], tab["value"], tab["prob"])])


def wald(D, b, V):
    d = D @ b
    return float(d @ np.linalg.solve(D @ V @ D.T, d))


class Reg:
    pass


def fn(T, tier):
    """the public test classes on every small (kr, kf, kryd, nr)"""
    from spreg import regimes as RG
    top = 3 if tier == "quick" else 4
    for nr in range(2, top + 2):
        for kx in range(0, top + 1):
            for kry in range(0, 3):
                for kf in range(0, 3):
                    kr = kx + kry
                    if kr == 0:
                        continue
                    k = kr * nr + kf
                    g = np.random.default_rng(k * 7 + nr)
                    g2 = g.normal(size=(k, k + 3))
                    r = Reg()
                    # all exogenous: coefficients [regime blocks of x][global]; endogenous blocks follow
                    r.kr, r.kf, r.kryd, r.nr, r.betas, r.vm = kr, kf, kry, nr, g.normal(size=(k, 1)), g2 @ g2.T
                    c = RG.Chow(r)
                    T.call(); T.state("fn", nr, kx, kry, kf)
                    at = lambda v, j: j * kx + v if v < kx else nr * kx + j * kry + (v - kx)
                    Ds = []
                    key = "nr%d/kx%d/ky%d/kf%d/" % (nr, kx, kry, kf)
                    for v in range(kr):
                        D = np.zeros((nr - 1, k))
                        for j in range(1, nr):
                            D[j - 1, at(v, 0)], D[j - 1, at(v, j)] = 1, -1
                        Ds.append(D)
                        W = wald(D, r.betas.ravel(), r.vm)
                        T.close(key + "chow_regi", c.regi[v], [W, stats.chi2.sf(W, nr - 1)], 1e-8, atol=1e-12)
                    D = np.vstack(Ds)
                    W = wald(D, r.betas.ravel(), r.vm)
                    T.close(key + "chow_joint", c.joint, [W, stats.chi2.sf(W, kr * (nr - 1))], 1e-8, atol=1e-12)
                    if kry == 0:
                        w = RG.Wald(r, RG.buildR(kr, kf, nr))
                        T.close(key + "wald_class", [w.w, w.pvalue], c.joint, 1e-8, atol=1e-12)
                    q = np.arange(D.shape[0], dtype=float).reshape(-1, 1) / 3
                    w = RG.Wald(r, D, q)
                    d = D @ r.betas - q
                    W = float((d.T @ np.linalg.solve(D @ r.vm @ D.T, d)).item())
                    T.close(key + "wald_q", [w.w, w.pvalue], [W, stats.chi2.sf(W, len(D))], 1e-8, atol=1e-12)
