"""P29: nonlinear SLX: distance-decay weights by definition on all small layouts; estimates are an optimum of the least-squares criterion."""
import itertools
import numpy as np
import numpy.linalg as la
from scipy import stats
from scipy.optimize import minimize
import spreg
import zcheck
from spreg.utils import make_wnslx
from p26 import quiet

META = {"rule": "weights: a state is (point layout, neighbour count, distance bound, transform, metric), layouts being ALL subsets of a small lattice of a given size (with ties), all orders of some, and irregular ones; estimation: a state is (layout, regressors, parameter list, lagged-variable mask, variance option, input form)",
        "assumptions": ["distance bounds not equal to a distance between two points", "estimation: the minimiser reports success"]}

INF = np.inf


def cases(tier):
    out = []
    gx, gy, m = (4, 3, 5) if tier == "quick" else (4, 4, 6)
    pts = list(itertools.product(range(gx), range(gy)))
    subs = list(itertools.combinations(pts, m))
    step = 50 if tier == "quick" else 200
    for i in range(0, len(subs), step):
        out.append(("w/lattice%d/%d" % (m, i), ("w", subs[i:i + step], (1, 2, 3, 4), (INF, 1.2, 1.6, 2.5), "Euclidean")))
    perms = list(itertools.permutations([(0, 0), (1, 0.1), (2.3, 0), (0.2, 1.7), (5, 5)]))
    for i in range(0, len(perms), 60):
        out.append(("w/order/%d" % i, ("w", perms[i:i + 60], (1, 2, 3, 4), (INF, 1.3, 2.4, 6.1), "Euclidean")))
    for s in range(8 if tier == "quick" else 60):
        for metric in ("Euclidean", "Arc"):
            g = np.random.default_rng(s)
            n = 7 + s % 9
            xy = np.column_stack([g.uniform(-120, -80, n), g.uniform(20, 60, n)]) if metric == "Arc" else g.normal(size=(n, 2)) * 3
            bounds = (INF, 300, 950, 2600) if metric == "Arc" else (INF, 0.7, 2.0, 5.0)
            out.append(("w/random/%s%d" % (metric, s), ("w", [[tuple(v) for v in xy]], tuple(range(1, n)), bounds, metric)))
    dup = [[(0, 0), (0, 0), (1, 0), (0, 2), (3, 1)], [(0, 0), (1, 1), (1, 1), (1, 1), (4, 0), (0, 5)], [(2, 2), (0, 0), (2, 2), (0, 0), (5, 1), (7, 3)]]
    out.append(("w/coincident", ("w", [list(p) for d in dup for p in sorted(set(itertools.permutations(d)))], (3, 4) if tier == "quick" else (3, 4), (INF, 2.6), "Euclidean")))
    for s in range(3 if tier == "quick" else 8):
        for k in (1, 2, 3):
            out.append(("est/s%d/k%d" % (s, k), ("est", s, k, tier)))
    return out


def dist(xy, metric):
    xy = np.asarray(xy, float)
    if metric == "Euclidean":
        return np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(2))
    lo, lt = np.radians(xy[:, 0]), np.radians(xy[:, 1])
    h = np.sin((lt[:, None] - lt) / 2) ** 2 + np.cos(lt[:, None]) * np.cos(lt) * np.sin((lo[:, None] - lo) / 2) ** 2
    return 2 * np.arcsin(np.sqrt(h)) * 6371.0               # libpysal: kilometres


def row_ref(D, i, k, bound):
    """sorted distances of the eligible neighbours of i"""
    d = sorted(D[i, j] for j in range(len(D)) if j != i and D[i, j] < bound)
    return d[:k]


def rows_of(S):
    return [dict(zip(S.indices[S.indptr[i]:S.indptr[i + 1]].tolist(), S.data[S.indptr[i]:S.indptr[i + 1]].tolist())) for i in range(S.shape[0])]


def check_w(T, key, S, xy, k, bound, tr, metric):
    D = dist(xy, metric)
    n = len(D)
    if not T.eq(key + "shape", tuple(S.shape), (n, n)):
        return False
    ok = True
    for i, row in enumerate(rows_of(S)):
        want = row_ref(D, i, k, bound)
        if i in row:
            ok = T.fail(key + "self", "point %d is its own neighbour" % i)
            continue
        got = sorted(D[i, j] for j in row)
        if len(got) != len(want) or (want and abs(np.array(got) - want).max() > 1e-6 * max(1, want[-1])):
            ok = T.fail(key + "neighbours", "point %d: neighbours %s at %s, nearest eligible distances %s" % (i, sorted(row), got, want))
            continue
        T.compared += 1
        if not want:
            continue
        mx = want[-1] if want[-1] > 1e-12 else 0.0
        for j, v in row.items():
            d = D[i, j] / mx if mx > 0 else 0.0
            e = d if tr == "exponential" else 1 - d
            if not abs(v - e) < 1e-7:
                ok = T.fail(key + "value", "w[%d,%d] = %r want %r" % (i, j, v, e))
    return ok


def run(case, T):
    if case[0] == "w":
        _, layouts, ks, bounds, metric = case
        for c, xy in enumerate(layouts):
            for k in ks:
                if k >= len(xy):
                    continue
                for bound in bounds:
                    for tr in ("exponential", "power"):
                        T.call(); T.state((tuple(xy), k, bound, tr, metric))
                        key = "%s/k%d/d%g/%s/" % ("".join("%g,%g;" % p for p in xy) if len(xy) <= 6 else c, k, bound, tr)
                        try:
                            with np.errstate(all="ignore"):
                                S = make_wnslx(np.array(xy, float), (k, bound, tr), distance_metric=metric, leafsize=30 if c % 2 else 1)
                        except Exception as e:
                            T.fail(key + "raises", "%s: %s" % (type(e).__name__, e))
                            continue
                        check_w(T, key, S, xy, k, bound, tr, metric)
        return
    est(case, T)


def dense_w(xy, par, metric="Euclidean"):
    """(normalised value, mask) without ties"""
    k, bound, tr = par
    D = dist(xy, metric)
    n = len(D)
    V, M = np.zeros((n, n)), np.zeros((n, n), bool)
    for i in range(n):
        o = [j for j in np.argsort(D[i]) if j != i and D[i, j] < bound][:k]
        for j in o:
            V[i, j] = D[i, j] / D[i, o[-1]]
            M[i, j] = True
    if tr.lower() == "power":
        V = np.where(M, 1 - V, 0)
    return V, M


def walpha(V, M, a, tr, grad=False, coded=False):
    if tr.lower() == "power":
        with np.errstate(all="ignore"):
            P = np.where(M & (V > 0), np.power(np.where(V > 0, V, 1), a), 0)
            if a == 0:
                P = np.where(M, 1.0, 0)
            if not grad:
                return P
            return np.where(V > 0, P * np.log(np.where(V > 0, V, 1)), 0)
    E = np.where(M, np.exp(-a * V), 0)
    if not grad:
        return E
    with np.errstate(all="ignore"):
        return np.where(M, -V * E * (np.log(a * V) if coded else 1), 0)


def model(b, al, X, xw, WS):
    f = X @ b
    for j, a in enumerate(al):
        V, M, tr = WS[j if len(WS) > 1 else 0]
        f = f + walpha(V, M, a, tr) @ xw[:, [j]]
    return f


def est(case, T):
    _, s, k, tier = case
    g = np.random.default_rng(40 + s)
    n = 30 + 5 * (s % 3)
    xy = g.uniform(0, 10, size=(n, 2))
    x = g.normal(size=(n, k)) + 0.5
    X = np.hstack([np.ones((n, 1)), x])
    names = ["u", "v", "t"][:k]
    one = [[(5, INF, "exponential")], [(4, INF, "power")], [(8, 2.5, "exponential")], [(10, 2.0, "power")], [(6, INF, "Exponential")]]
    many = [[(5, INF, "exponential"), (4, INF, "power"), (8, 3.0, "exponential")][:k], [(4, INF, "power"), (6, INF, "exponential"), (3, INF, "power")][:k]] if k > 1 else []
    for par0 in one + many:
        par = par0
        if any(len(r) == 0 for p in par for r in [row_ref(dist(xy, "Euclidean"), i, p[0], p[1]) for i in range(n)]) and par[0][1] < 1:
            continue
        for mask in ["All"] + [list(m) for m in itertools.product([True, False], repeat=k) if any(m)]:
            cols = list(range(k)) if mask == "All" else [i for i in range(k) if mask[i]]
            ps = par if len(par) == 1 else [par[i] for i in cols]
            WS = [dense_w(xy, p) + (p[2],) for p in ps]
            xw = x[:, cols]
            h = len(cols)
            y = model(np.array([[1.0]] + [[0.8 - 0.5 * j] for j in range(k)]), [1.2 + 0.5 * j for j in range(h)], X, xw, WS) + 0.4 * np.random.default_rng(s + 9).normal(size=(n, 1))
            for vf in (1, 0):
                key = "%s/%s/vf%d/" % ("+".join("%d_%g_%s" % p for p in par), mask if mask == "All" else "".join("01"[v] for v in mask), vf)
                one_model(T, key, y, x, xy, par, mask, vf, X, xw, WS, ps, names, cols, n)
        if len(par) > 1 or s == 0:          # great-circle distances, progress output
            ll = np.column_stack([xy[:, 0] * 11 - 60, xy[:, 1] * 9 - 40])
            par = [(a, b * 700, c) for a, b, c in par]                # kilometres
            WS = [dense_w(ll, p, "Arc") + (p[2],) for p in par]
            if len(par) == 1 or len(par) == k:
                y = model(np.array([[1.0]] + [[0.8 - 0.5 * j] for j in range(k)]), [1.2 + 0.5 * j for j in range(k)], X, x, WS) + 0.4 * np.random.default_rng(s + 9).normal(size=(n, 1))
                ex = [{}, {"conv_flag": 1}, {"verbose": True}, {"leafsize": 2}][(s + len(par[0][2])) % 4]
                one_model(T, "%s/arc/" % "+".join("%d_%g_%s" % p for p in par), y, x, ll, par, "All", 1, X, x, WS, par, names, list(range(k)), n, "Arc", **ex)
        if k == 2 and len(par0) == 1:
            forms(T, "+".join("%d_%g_%s" % p for p in par0), y, x, xy, par0)


def one_model(T, key, y, x, xy, par, mask, vf, X, xw, WS, ps, names, cols, n, metric="Euclidean", **extra):
    T.call(); T.state(key)
    k, h = X.shape[1], len(cols)
    try:
        with np.errstate(all="ignore"):
            m = quiet(spreg.NSLX, y, x, xy, params=list(par), slx_vars=mask, var_flag=vf, name_x=list(names), name_y="resp", options={"gtol": 1e-7}, distance_metric=metric, **extra)
    except Exception as e:
        return T.fail(key + "raises", "%s: %s" % (type(e).__name__, e))
    be = np.ravel(m.betas)
    if be.size != k + h:
        return T.fail(key + "betas", "size %d" % be.size)
    for j, S in enumerate(m.w):
        check_w(T, key + "w%d/" % j, S, xy, ps[j][0], ps[j][1], ps[j][2].lower(), metric)
    b, al = be[:k, None], be[k:]
    T.eq(key + "names", list(m.name_x), ["CONSTANT"] + names + ["W%s_%s" % ((ps[j] if len(ps) > 1 else ps[0])[2][0], names[c]) for j, c in enumerate(cols)])
    T.eq(key + "output", (list(m.output["var_names"]), list(m._var_type)), (list(m.name_x), ["o"] + ["x"] * (k - 1) + ["wx"] * h))
    T.eq(key + "params", (list(m.knn), list(m.d_upper_bound)), ([p[0] for p in ps], [p[1] for p in ps]) if len(ps) == len(par) else (list(m.knn), list(m.d_upper_bound)))
    f = model(b, al, X, xw, WS)
    e = y - f
    ss = (e.T @ e).item()
    T.close(key + "predy", m.predy, f, 1e-7, atol=1e-9, shape=True)
    T.close(key + "u", m.u, e, 1e-7, atol=1e-9, shape=True)
    T.close(key + "utu", m.utu, ss, 1e-9)
    s2 = ss / n
    T.close(key + "sig2", [m.sig2, m.sign], [s2, s2], 1e-9)
    ll = -n / 2 * (np.log(2 * np.pi * s2) + 1)
    T.close(key + "ll", np.ravel(m.ll), [ll], 1e-9)
    T.close(key + "aic", np.ravel(m.aic), [2 * (k + h) - 2 * ll], 1e-9)
    T.close(key + "schwarz", np.ravel(m.schwarz), [(k + h) * np.log(n) - 2 * ll], 1e-9)
    T.eq(key + "nk", (m.n, m.k), (n, k + h))
    # optimum
    J = np.hstack([X] + [walpha(*WS[j if len(WS) > 1 else 0][:2], al[j], WS[j if len(WS) > 1 else 0][2], True) @ xw[:, [j]] for j in range(h)])
    gr = J.T @ e
    # Gauss-Newton decrement in units of the residual variance, concentrating on well identified parameters
    dec = (gr.T @ la.pinv(J.T @ J) @ gr).item() / s2
    powneg = any((WS[j if len(WS) > 1 else 0][2].lower() == "power") and al[j] < 0.05 for j in range(h))
    if m.success and not powneg:
        T.true(key + "optimum", dec < 1e-4, "gradient not zero: decrement %.3g at %s" % (dec, al))
    elif not powneg:
        # stopped for precision loss: the criterion cannot be improved noticeably nearby
        o = minimize(lambda v: ((y - model(v[:k, None], v[k:], X, xw, WS)) ** 2).sum(), be, method="Nelder-Mead", options={"maxiter": 400, "xatol": 1e-6, "fatol": 1e-9})
        T.true(key + "optimum", ss - o.fun < 1e-2 * s2 * n, "criterion %.6g, nearby %.6g" % (ss, o.fun))
    # variance
    vm = np.asarray(m.vm)
    if vf == 0:
        T.close(key + "vm_hess", vm, np.asarray(m.ihess) * s2, 1e-9)
    elif not powneg:
        if np.linalg.cond(J.T @ J) < 1e10:
            V = s2 * la.inv(J.T @ J)
            B = np.zeros_like(V)
            B[:k, :k], B[k:, k:] = s2 * la.inv(J[:, :k].T @ J[:, :k]), s2 * la.inv(J[:, k:].T @ J[:, k:])
            C = B.copy()
            Jc = np.hstack([walpha(*WS[j if len(WS) > 1 else 0][:2], al[j], WS[j if len(WS) > 1 else 0][2], True, True) @ xw[:, [j]] for j in range(h)])
            isexp = any(p[2].lower() == "exponential" for p in ps)
            if isexp:
                if np.isfinite(Jc).all() and la.cond(Jc.T @ Jc) < 1e12:
                    C[k:, k:] = s2 * la.inv(Jc.T @ Jc)
                else:
                    C[k:, k:] = np.nan
            # the value as implemented (two listed findings) or the exact one
            opts = [V, B, C]
            T.true(key + "vm", any(np.allclose(vm, o, 1e-6, 1e-10, equal_nan=True) for o in opts) or (isexp and np.isnan(C).any() and np.allclose(vm[:k, :k], B[:k, :k], 1e-6)),
                   "%s matches neither the variance by gradient nor its parts" % np.array2string(vm, precision=5))
            if isexp and not np.allclose(vm[k:, k:], V[k:, k:], 1e-6, 1e-10) and not np.allclose(vm[k:, k:], B[k:, k:], 1e-6, 1e-10):
                T.fail(key + "exp_gradient", "variance of alpha %s, by gradient %s" % (np.diag(vm)[k:], np.diag(B)[k:]))
            if np.allclose(vm[:k, k:], 0) and abs(V[:k, k:]).max() > 1e-8:
                T.fail(key + "block_diagonal", "covariance of betas and alphas is zero, by gradient %s" % np.array2string(V[:k, k:], precision=4))
    d = np.diag(vm)
    if (d > 0).all():
        z = be / np.sqrt(d)
        T.close(key + "z", list(zip(*[(float(np.ravel(a)[0]), float(np.ravel(p)[0])) for a, p in m.z_stat])) if hasattr(m, "z_stat") else m.output["zt_stat"], (z, 2 * stats.norm.sf(abs(z))) if hasattr(m, "z_stat") else z, 1e-6, atol=1e-10)
        T.close(key + "out_coef", np.asarray(m.output["coefficients"], float), be, 1e-9)
        T.close(key + "out_se", np.asarray(m.output["std_err"], float), np.sqrt(d), 1e-9)
        T.close(key + "out_z", np.asarray(m.output["zt_stat"], float), z, 1e-6)
        T.close(key + "out_p", np.asarray(m.output["prob"], float), 2 * stats.norm.sf(abs(z)), 1e-6, atol=1e-12)


def forms(T, tag, y, x, xy, par):
    import pandas as pd
    import geopandas as gpd
    base = quiet(spreg.NSLX, y, x, xy, params=par)
    df = pd.DataFrame(xy, columns=["east", "north"], index=["r%d" % i for i in range(len(xy))])
    gs = gpd.GeoSeries(gpd.points_from_xy(xy[:, 0], xy[:, 1]))
    for nm, yy, xx, co in (("df", pd.Series(y[:, 0], name="resp"), pd.DataFrame(x, columns=["u", "v"]), df), ("geo", y, x, gs),
                           ("geolab", y, x, gpd.GeoSeries(gs.values, index=["r%d" % i for i in range(len(xy))])), ("flat", y[:, 0], x, xy)):
        T.call()
        try:
            m = quiet(spreg.NSLX, yy, xx, co, params=par)
        except Exception as e:
            T.fail("%s/form/%s" % (tag, nm), "%s: %s" % (type(e).__name__, e))
            continue
        T.close("%s/form/%s/predy" % (tag, nm), m.predy, base.predy, 1e-4, atol=1e-4)
        if np.abs(base.betas).max() < 20:                      # all parameters well identified
            T.close("%s/form/%s/betas" % (tag, nm), m.betas, base.betas, 1e-3)
            T.close("%s/form/%s/vm" % (tag, nm), m.vm, base.vm, 1e-2)
    # the same points through the conventional distance metric and leaf size options
    m = quiet(spreg.NSLX, y, x, xy, params=par, leafsize=3)
    T.close("%s/leafsize" % tag, m.predy, base.predy, 1e-4, atol=1e-4)
    # relabelled units: the criterion at the estimates does not depend on the order of the observations
    p = np.random.default_rng(1).permutation(len(xy))
    m = quiet(spreg.NSLX, y[p], x[p], xy[p], params=par)
    if m.success and base.success:
        T.close("%s/perm" % tag, m.utu, base.utu, 1e-5)
