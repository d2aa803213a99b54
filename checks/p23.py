"""P23: simulated data satisfy the structural equations they name."""
import contextlib, io, itertools
import itertools
import numpy as np
import scipy.linalg as sla
import spreg
import worlds

META = {"rule": "a state is (weights, generator, spatial parameters, error process, inversion method); plus every dimension mismatch of every generator",
        "assumptions": ["disturbances and regressors come from a fixed deterministic table"]}

RHO = {"quick": [-0.5, 0.0, 0.4, 0.85], "thorough": [-0.95, -0.5, -0.1, 0.0, 0.1, 0.4, 0.7, 0.85, 0.97]}
KINDS = ["rook:5x5", "rookb:4x4", "rooks:4x4", "queen:4x5", "knn:5x5", "odd:4x4", "isl:4x4", "ring:3x3"]
PAIRS4 = list(itertools.combinations(range(4), 2))


def graphs(tier):
    out = []
    for m in range(64):
        A = np.zeros((4, 4))
        for b, (i, j) in enumerate(PAIRS4):
            if m >> b & 1:
                A[i, j] = A[j, i] = 1
        out.append(("g%d" % m, A))
    if tier == "thorough":      # all digraphs on 3 nodes, unequal weights
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        for m in range(64):
            A = np.zeros((3, 3))
            for b, (i, j) in enumerate(off):
                if m >> b & 1:
                    A[i, j] = 1 + 0.5 * b
            out.append(("d%d" % m, A))
    return out


def cases(tier):
    out = [("W/" + k, ("kind", k, tier)) for k in KINDS]
    out += [("graph/" + k, ("graph", A, tier)) for k, A in graphs(tier)]
    out += [("dims", ("dims", None, tier)), ("draws", ("draws", None, tier)), ("linear", ("linear", None, tier)), ("mult", ("mult", None, tier))]
    return out


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def make(kind, what):
    if kind == "kind":
        return worlds.make_w(what)
    A = what / np.maximum(what.sum(1, keepdims=True), 1e-300)
    return worlds.from_adj(A)


def run(case, T):
    kind, what, tier = case
    if kind == "dims":
        return dims(T)
    if kind == "draws":
        return draws(T)
    if kind == "linear":
        return linear(T)
    if kind == "mult":
        return mult(T)
    w = make(kind, what)
    W = w.full()[0]
    n = w.n
    rs = np.random.RandomState(n)
    u = rs.normal(size=(n, 1))
    x = rs.normal(size=(n, 2)) * 2 + 1
    xb = quiet(spreg.make_xb, x, [1.0, 2.0, -0.5])
    T.close("make_xb", xb, 1 + x @ np.array([[2.0], [-0.5]]), rtol=1e-12)
    for o in (1, 2, 3):
        wx = quiet(spreg.make_wx, x, w, o=o)
        T.call()
        T.close("make_wx/%d" % o, wx, np.hstack([np.linalg.matrix_power(W, i + 1) @ x for i in range(o)]), rtol=1e-11, atol=1e-12)
    wx = W @ x
    wxg = quiet(spreg.make_wxg, wx, [0.7, -0.3])
    T.close("make_wxg", wxg, wx @ np.array([[0.7], [-0.3]]), rtol=1e-12)
    T.close("make_wxg/1", quiet(spreg.make_wxg, wx[:, :1], 0.7), wx[:, :1] * 0.7, rtol=1e-12)
    radius = max(abs(np.linalg.eigvals(W)))
    I = np.eye(n)
    frozen = [(a, a.copy()) for a in (u, xb, wxg)]
    S = W.copy()

    def check(name, f, args, kw, latent):
        """latent -> the disturbance part that must come back when the value is put in the equation"""
        T.call()
        T.state(name)
        y = quiet(f, *args, **kw)
        got, want = latent(y)
        T.close(name, got, want, rtol=1e-7, atol=1e-7)
        return y

    for rho in RHO[tier]:
        if abs(rho) * radius >= 0.98:
            continue
        A = I - rho * W
        T.close("mess/%s" % rho, sla.expm(np.log(1 - rho) * W) @ quiet(spreg.dgp_mess, u, xb, w, rho=rho), xb + u, rtol=1e-8, atol=1e-8)
        for im in ("power_exp", "true_inv"):
            t = "%s/rho=%s" % (im, rho)
            lag = check("lag/" + t, spreg.dgp_lag, (u, xb, w), dict(rho=rho, imethod=im), lambda y: (A @ y - xb, u))
            dur = check("durbin/" + t, spreg.dgp_spdurbin, (u, xb, wxg, w), dict(rho=rho, imethod=im), lambda y: (A @ y - xb - wxg, u))
            for f, a, y in ((spreg.dgp_lag, (u, xb, w), lag), (spreg.dgp_spdurbin, (u, xb, wxg, w), dur)):
                binary(T, "bin/%s/%s" % (f.__name__, t), quiet(f, *a, rho=rho, imethod=im, ybin=True), y)
            for lam in RHO[tier]:
                if abs(lam) * radius >= 0.98:
                    continue
                B = I - lam * W
                for model in ("sar", "ma"):
                    t = "%s/%s/rho=%s/lam=%s" % (model, im, rho, lam)
                    kw = dict(lam=lam, model=model, imethod=im)
                    e = (lambda v: (B @ v, u)) if model == "sar" else (lambda v: (v, u + lam * W @ u))
                    if rho == RHO[tier][0]:
                        check("errproc/" + t, spreg.dgp_errproc, (u, w), kw, e)
                        y = check("error/" + t, spreg.dgp_sperror, (u, xb, w), kw, lambda y: e(y - xb))
                        binary(T, "bin/error/" + t, quiet(spreg.dgp_sperror, u, xb, w, ybin=True, **kw), y)
                        y = check("slxerror/" + t, spreg.dgp_slxerror, (u, xb, wxg, w), kw, lambda y: e(y - xb - wxg))
                        binary(T, "bin/slxerror/" + t, quiet(spreg.dgp_slxerror, u, xb, wxg, w, ybin=True, **kw), y)
                    kw["rho"] = rho
                    y = check("lagerr/" + t, spreg.dgp_lagerr, (u, xb, w), kw, lambda y: e(A @ y - xb))
                    binary(T, "bin/lagerr/" + t, quiet(spreg.dgp_lagerr, u, xb, w, ybin=True, **kw), y)
                    y = check("gns/" + t, spreg.dgp_gns, (u, xb, wxg, w), kw, lambda y: e(A @ y - xb - wxg))
                    binary(T, "bin/gns/" + t, quiet(spreg.dgp_gns, u, xb, wxg, w, ybin=True, **kw), y)
    T.close("defaults/lag", (I - 0.5 * W) @ quiet(spreg.dgp_lag, u, xb, w, imethod="true_inv") - xb, u, rtol=1e-8, atol=1e-8)
    T.close("defaults/error", (I - 0.5 * W) @ (quiet(spreg.dgp_sperror, u, xb, w, imethod="true_inv") - xb), u, rtol=1e-8, atol=1e-8)
    T.close("defaults/lagerr", (I - 0.2 * W) @ ((I - 0.5 * W) @ quiet(spreg.dgp_lagerr, u, xb, w, imethod="true_inv") - xb), u, rtol=1e-8, atol=1e-8)
    T.close("defaults/gns", (I - 0.2 * W) @ ((I - 0.5 * W) @ quiet(spreg.dgp_gns, u, xb, wxg, w, imethod="true_inv") - xb - wxg), u, rtol=1e-8, atol=1e-8)
    for i, (a, b) in enumerate(frozen):
        T.eq("inputs/%d" % i, a.tolist(), b.tolist())
    T.eq("inputs/w", w.full()[0].tolist(), S.tolist())
    for f, a in ((spreg.dgp_sperror, (u, xb, w)), (spreg.dgp_slxerror, (u, xb, wxg, w)), (spreg.dgp_lagerr, (u, xb, w)), (spreg.dgp_gns, (u, xb, wxg, w)), (spreg.dgp_errproc, (u, w))):
        refused(T, "model/" + f.__name__, lambda: quiet(f, *a, model="car"))
        refused(T, "imethod/" + f.__name__, lambda: quiet(f, *a, imethod="lu"))


def binary(T, name, got, y):
    T.call()
    y = np.asarray(y)
    d = abs(y - y.mean())
    ok = (np.asarray(got) == (y > y.mean())) | (d < 1e-6)       # a value equal to the mean may fall on either side
    T.true(name, np.asarray(got).shape == y.shape and bool(ok.all()) and np.asarray(got).dtype.kind in "if")


def refused(T, name, f, quietly=False):
    """the call is refused: an exception, or a message and None (quietly: only the latter)"""
    T.call()
    T.state(name)
    try:
        r = f()
    except Exception as ex:
        r = ex if quietly else None
    T.true("refused/" + name, r is None, "returned a value")


def dims(T):
    rs = np.random.RandomState(3)
    W = {n: worlds.from_adj(np.roll(np.eye(n), 1, 0)) for n in (6, 7, 8)}
    V = {n: rs.normal(size=(n, 1)) for n in (6, 7, 8)}
    G = {"dgp_ols": "vv", "dgp_slx": "vvv", "dgp_sperror": "vvw", "dgp_slxerror": "vvvw", "dgp_lag": "vvw", "dgp_spdurbin": "vvvw", "dgp_lagerr": "vvw",
         "dgp_gns": "vvvw", "dgp_mess": "vvw", "dgp_probit": "vv", "dgp_errproc": "vw", "make_heterror": "vv", "make_wx": "vw"}
    for g, sig in G.items():
        for sizes in itertools.product((6, 7, 8), repeat=len(sig)):
            args = [abs(V[s]) if c == "v" else W[s] for c, s in zip(sig, sizes)]
            f = getattr(spreg, g)
            t = "%s/%s" % (g, "-".join(map(str, sizes)))
            if len(set(sizes)) > 1:
                refused(T, t, lambda: quiet(f, *args), quietly=g.startswith("dgp_"))
            else:
                T.call()
                T.true("accepted/" + t, quiet(f, *args) is not None)
    for k in (1, 2, 3):
        x = rs.normal(size=(7, k))
        for m in range(1, 6):
            if m != k + 1:
                refused(T, "make_xb/%d/%d" % (k, m), lambda: quiet(spreg.make_xb, x, list(range(1, m + 1))))
            if m != k and k > 1:
                refused(T, "make_wxg/%d/%d" % (k, m), lambda: quiet(spreg.make_wxg, x, list(range(1, m + 1))))
            if m != k:
                refused(T, "make_x/%d/%d" % (k, m), lambda: quiet(spreg.make_x, np.random.default_rng(1), 7, mu=[0] * k, varu=[1] * m))
            # group sizes that do not add up to n, or not as many as the variances
            refused(T, "vmult/%d/%d" % (k, m), lambda: quiet(spreg.make_vmult, 7 if m == k else 6, method="group", vlow=[6 // k] * k, vup=[1] * m))


def linear(T):
    rs = np.random.RandomState(5)
    for n in range(2, 12):
        u, xb, wxg = rs.normal(size=(3, n, 1))
        T.state("n%d" % n)
        T.close("ols/%d" % n, quiet(spreg.dgp_ols, u, xb), u + xb, rtol=1e-13)
        y = quiet(spreg.dgp_slx, u, xb, wxg)
        T.close("slx/%d" % n, y, u + xb + wxg, rtol=1e-13, atol=1e-14)
        binary(T, "slxbin/%d" % n, quiet(spreg.dgp_slx, u, xb, wxg, ybin=True), y)
        binary(T, "probit/%d" % n, quiet(spreg.dgp_probit, u, xb), u + xb)
        binary(T, "make_bin/%d" % n, quiet(spreg.make_bin, u), u)
        if n <= 5:                     # every series of small integers; the mean is exact when it is itself an integer
            for v in itertools.product((0.0, 1.0, 2.0), repeat=n):
                v = np.array(v).reshape(-1, 1)
                T.call()
                if sum(v.ravel()) % n == 0:
                    g = np.asarray(quiet(spreg.make_bin, v))
                    T.true("make_bin/all/%d" % n, g.shape == v.shape and bool((g == (v > sum(v.ravel()) / n)).all()), "%r for %r" % (g.ravel(), v.ravel()))
        v = rs.uniform(0.1, 4, size=(n, 1))
        T.close("heterror/%d" % n, quiet(spreg.make_heterror, u, v), u * np.sqrt(v), rtol=1e-13)


def mult(T):
    for n in range(2, 12):
        for lo, hi in ((1, 4), (0.5, 3), (4, 1), (2, 2)):
            T.state("linear/%d/%s/%s" % (n, lo, hi))
            v = quiet(spreg.make_vmult, n, vlow=[lo], vup=[hi])
            T.close("linear/%d/%s/%s" % (n, lo, hi), v, np.linspace(lo, hi, n).reshape(-1, 1), rtol=1e-12)
            v = quiet(spreg.make_vmult, n, method="uniform", vlow=[lo], vup=[hi], rng=np.random.default_rng(n)) if lo <= hi else None
            if v is not None:
                T.close("uniform/%d/%s/%s" % (n, lo, hi), v, lo + (hi - lo) * np.random.default_rng(n).uniform(size=(n, 1)), rtol=1e-12)
        for cut in range(1, n):
            v = quiet(spreg.make_vmult, n, method="group", vlow=[cut, n - cut], vup=[1.5, 3])
            T.close("group/%d/%d" % (n, cut), v, np.array([1.5] * cut + [3] * (n - cut), float).reshape(-1, 1), rtol=1e-13)
    refused(T, "vmult/norng", lambda: quiet(spreg.make_vmult, 5, method="uniform"))
    refused(T, "vmult/method", lambda: quiet(spreg.make_vmult, 5, method="foo"))


def draws(T):
    g = lambda: np.random.default_rng(11)
    for n in (1, 5, 40):
        for mu in (0, 1.5, -2):
            for var in (0.25, 1, 4):
                t = "%d/%s/%s" % (n, mu, var)
                T.state(t)
                z = g().standard_normal(n).reshape(-1, 1)
                T.close("normal/" + t, quiet(spreg.make_error, g(), n, mu=mu, varu=var), mu + np.sqrt(var) * z, rtol=1e-12)
                T.close("lognormal/" + t, quiet(spreg.make_error, g(), n, mu=mu, varu=var, method="lognormal"), np.exp(mu + np.sqrt(var) * z), rtol=1e-12)
                T.close("laplace/" + t, quiet(spreg.make_error, g(), n, mu=mu, varu=var, method="laplace"), g().laplace(mu, np.sqrt(var / 2), n).reshape(-1, 1), rtol=1e-12)
                T.close("x/normal/" + t, quiet(spreg.make_x, g(), n, mu=[mu], varu=[var], method="normal"), mu + np.sqrt(var) * z, rtol=1e-12)
                T.close("x/uniform/" + t, quiet(spreg.make_x, g(), n, mu=[mu], varu=[var]), g().uniform(size=(n, 1)) * np.sqrt(12 * var), rtol=1e-12)
                for cor in (-0.5, 0, 0.8):
                    x = quiet(spreg.make_x, g(), n, mu=[mu, 1], varu=[var, 2], cor=cor, method="bivnormal")
                    c = cor * np.sqrt(var * 2)
                    T.close("x/biv/%s/%s" % (t, cor), x, g().multivariate_normal([mu, 1], [[var, c], [c, 2]], n), rtol=1e-9)
        r = g()
        want = np.column_stack([r.normal(1, np.sqrt(2), n), r.normal(-1, np.sqrt(0.5), n), r.normal(0, 1, n)])
        T.close("x/normal3/%d" % n, quiet(spreg.make_x, g(), n, mu=[1, -1, 0], varu=[2, 0.5, 1], method="normal"), want, rtol=1e-12)
        T.close("cauchy/%d" % n, quiet(spreg.make_error, g(), n, method="cauchy"), g().standard_cauchy(n).reshape(-1, 1), rtol=1e-12)
    refused(T, "make_error/method", lambda: quiet(spreg.make_error, g(), 5, method="foo"))
    refused(T, "make_x/method", lambda: quiet(spreg.make_x, g(), 5, method="foo"))
    refused(T, "make_x/bivnormal3", lambda: quiet(spreg.make_x, g(), 5, mu=[0, 0, 0], varu=[1, 1, 1], method="bivnormal"))
