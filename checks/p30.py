"""P30: Skater_reg against a nondeterministic model of the pruning: the model enumerates every minimum spanning forest and every
tied best admissible cut; the recorded run must be one of the model's behaviours."""
import itertools
import warnings
import numpy as np
import numpy.linalg as la
import libpysal
import spreg
from spreg.skater_reg import Skater_reg
import worlds
from p26 import quiet

META = {"rule": "a state is (labelled graph, attribute vector, scoring model, requested clusters, quorum, island rule); ALL labelled graphs on 4 and 5 nodes (6 in thorough), connected or not, with distinct and with tied attributes; larger lattices with regression scores. The model is nondeterministic (all minimum spanning forests, all tied best cuts); the run recorded by the implementation must be a behaviour of the model",
        "assumptions": ["ties are decided up to 2e-7"]}
INF = np.inf
VALS = [(0.0, 1.3, 2.9, 5.2, 8.1, 9.4), (3.1, 0.2, 7.7, 1.9, 5.05, 9.9), (0.0, 10.3, 0.7, 9.1, 0.4, 10.9), (1.0, 1.1, 1.25, 9.0, 9.4, 17.3)]


def cases(tier):
    out = []
    for n, sizes, step in (((4, 4, 64), (5, 5, 64)) if tier == "quick" else ((4, 4, 64), (5, 5, 64), (6, 6, 512))):
        m = n * (n - 1) // 2
        for vi in range(len(VALS) if n < 6 else 1):
            for lo in range(0, 2 ** m, step):
                out.append(("graphs%d/v%d/%d" % (n, vi, lo), ("graphs", n, lo, min(lo + step, 2 ** m), vi)))
    for n in (4, 5) if tier == "thorough" else (4,):
        m = n * (n - 1) // 2
        for lo in range(0, 2 ** m, 16 if n == 4 else 64):
            out.append(("ties%d/%d" % (n, lo), ("ties", n, lo, min(lo + (16 if n == 4 else 64), 2 ** m))))
    for t in ("rook:4x4", "queen:4x4", "rook:3x6", "rook:5x5", "knn:4x5"):
        for s in range(2 if tier == "quick" else 12):
            for model in ("BaseOLS", "OLS", "sm", "BaseTSLS", "TSLS", "GM_Lag", "BaseGM_Lag", "none", "median"):
                out.append(("reg/%s/%s/s%d" % (t, model, s), ("reg", t, model, s, 1)))
    for s in range(2 if tier == "quick" else 8):
        for model in ("BaseOLS", "sm", "BaseTSLS", "GM_Lag", "none"):
            out.append(("blocks/%s/s%d" % (model, s), ("reg", "blocks", model, s, 2)))
    for s in range(3):
        for red in ("max", "mean"):
            out.append(("reduction/%s/s%d" % (red, s), ("reg", "rook:4x4", red, s, 1)))
    for s in range(2 if tier == "quick" else 6):
        for what in ("many", "manyreg", "affinity", "rbf", "affreg", "dummy", "dummysm", "wreg", "ivdep"):
            out.append(("more/%s/s%d" % (what, s), ("more", what, s)))
    return out


class SM(object):
    """stand-in for a statsmodels model class: Model(y, X).fit().resid"""
    def __init__(self, y, X):
        self.y, self.X = y, X

    def fit(self):
        b = la.lstsq(self.X, self.y, rcond=None)[0]
        self.resid = self.y - self.X @ b
        return self


def build(n, edges, strid=False, style="dict"):
    ids = ["n%02d" % ((7 * i + 3) % 97) for i in range(n)] if strid else list(range(n))
    nb = {ids[i]: [] for i in range(n)}
    for a, b in edges:
        nb[ids[a]].append(ids[b]); nb[ids[b]].append(ids[a])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return libpysal.weights.W(nb, id_order=ids, silence_warnings=True)


# ------------------------------------------------------------------ the model
def comps(n, edges):
    lab = list(range(n))
    def find(a):
        while lab[a] != a:
            a = lab[a]
        return a
    for a, b in edges:
        lab[find(a)] = find(b)
    roots = [find(i) for i in range(n)]
    m = {}
    return tuple(m.setdefault(r, len(m)) for r in roots)


def forests(n, edges, wt, limit=400):
    """all minimum spanning forests (sets of edges)"""
    groups = {}
    for e in edges:
        groups.setdefault(round(wt[e], 9), []).append(e)
    sols = [()]
    for k in sorted(groups):
        new = set()
        for s in sols:
            base = comps(n, s)
            need = len(set(base)) - len(set(comps(n, s + tuple(groups[k]))))
            for c in itertools.combinations(groups[k], need):
                if len(set(comps(n, s + c))) == len(set(base)) - need:
                    new.add(tuple(sorted(s + c)))
        sols = list(new)
        if len(sols) > limit:
            return None
    return sols


def model(n, edges, wt, score, target, quorum, limit=3000):
    """set of behaviours: (partitions, scores, ending). None: too many ties to enumerate"""
    fs = forests(n, edges, wt)
    if fs is None:
        return None
    out = []
    for f in fs:
        stack = [(tuple(f), (), (), INF)]
        while stack:
            if len(out) > limit:
                return None
            ed, parts, scs, prev = stack.pop()
            cur = comps(n, ed)
            if len(set(cur)) >= target:
                out.append((parts, scs, "done", cur, ed)); continue
            cand = []
            for e in ed:
                rest = tuple(x for x in ed if x != e)
                lab = comps(n, rest)
                arr = np.array(lab)
                if min((arr == lab[e[0]]).sum(), (arr == lab[e[1]]).sum()) < quorum:
                    continue
                s = score(lab)
                if np.isfinite(s):
                    cand.append((s, lab, rest))
            if not cand:
                out.append((parts, scs, "nocut", cur, ed)); continue
            best = min(c[0] for c in cand)
            tol = 2e-7 * max(1, abs(best))
            if best > prev + tol:
                out.append((parts, scs, "raise", cur, ed)); continue
            if prev < INF and abs(best - prev) <= tol:
                out.append((parts, scs, "raise", cur, ed))
            for s, lab, rest in cand:
                if s <= best + tol:
                    stack.append((rest, parts + (lab,), scs + (s,), s))
    return out


def canon(lab):
    m = {}
    return tuple(m.setdefault(int(v), len(m)) for v in lab)


def observe(T, name, w, n, edges, data, dreg, score, k, quorum, islands, sk=None, power=1, **kw):
    sk = sk or {}
    D = np.asarray(data, float) if data is not None else None
    dist = {(a, b): (1.0 if D is None else float(la.norm(D[a] - D[b])) ** power) for a, b in edges}
    base = comps(n, edges)
    nc = len(set(base))
    target = k + nc if nc > 1 and islands == "increase" else k
    before = (w.transform, {i: list(v) for i, v in w.neighbors.items()}, {i: list(v) for i, v in w.weights.items()}, list(w.id_order))
    dkeys = None if dreg is None else sorted(dreg)
    T.state(name)
    T.call()
    err, sr, warned = None, None, []
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            sr = quiet(lambda: Skater_reg(**sk).fit(k, w, data, dreg, quorum=quorum, trace=True, islands=islands, **kw))
        except ValueError as e:
            err = e
        warned = [str(r.message) for r in rec]
    T.true(name + "/w_unchanged", before == (w.transform, {i: list(v) for i, v in w.neighbors.items()}, {i: list(v) for i, v in w.weights.items()}, list(w.id_order)))
    if dreg is not None:
        T.eq(name + "/data_reg_unchanged", sorted(dreg), dkeys)
    if n < k * quorum or (nc > 1 and min(np.bincount(base)) < quorum):
        T.true(name + "/infeasible_raises", err is not None, "returned %r" % (sr,))
        return None
    beh = model(n, edges, dist, score, target, quorum)
    if beh is None:
        return sr
    if err is not None:
        T.true(name + "/raises", any(b[2] == "raise" for b in beh), "raised %r; behaviours %s" % (err, [(b[1], b[2]) for b in beh[:3]]))
        return None
    parts = tuple(canon(t[0]) for t in sr._trace[1:])
    scs = [float(t[1].score) for t in sr._trace[1:]]
    final = canon(sr.current_labels_)
    hit = [b for b in beh if b[2] != "raise" and b[0] == parts]
    if not T.true(name + "/behaviour", hit, "partitions %s scores %s; model %s" % (parts, scs, [(b[0], b[1], b[2]) for b in beh[:2]])):
        return sr
    if scs:
        T.close(name + "/scores", scs, hit[0][1], 1e-8, 2e-7)
    T.true(name + "/final", final == hit[0][3], "%s want %s" % (final, hit[0][3]))
    lab = np.asarray(sr.current_labels_)
    T.true(name + "/label_set", sorted(set(lab.tolist())) == list(range(len(set(final)))), lab)
    F = sr.minimum_spanning_forest_.tocoo()
    ed = tuple(sorted(tuple(sorted((int(a), int(b)))) for a, b in zip(F.row, F.col)))
    T.true(name + "/forest", comps(n, ed) == final and any(ed == b[4] for b in hit), "forest %s" % (ed,))
    if any(b[2] == "nocut" for b in hit):
        T.true(name + "/warns", any("no valid moves" in x for x in warned), warned)
    else:
        T.true(name + "/no_warning", not any("no valid moves" in x for x in warned), warned)
    for t, p, q in zip(sr._trace[1:], (canon(base),) + parts, parts):
        a, b = int(t[1].in_node), int(t[1].out_node)
        T.true(name + "/deletion", p[a] == p[b] and q[a] != q[b] and tuple(sorted((a, b))) in {tuple(sorted(e)) for e in edges}, "%s" % (t[1],))
    return sr


# ------------------------------------------------------------------ scores
def data_score(D, center=np.mean, red=np.sum):
    D = np.asarray(D, float)
    def f(lab):
        lab = np.array(lab)
        ps = []
        for l in sorted(set(lab.tolist())):
            s = D[lab == l]
            ps.append(red(np.sqrt(((s - center(s, axis=0)) ** 2).sum(1))))
        return float(red(ps))
    return f


def ols_score(y, X):
    def f(lab):
        lab = np.array(lab)
        t = 0.
        for l in set(lab.tolist()):
            A = np.column_stack([np.ones((lab == l).sum()), X[lab == l]])
            r = y[lab == l] - A @ la.lstsq(A, y[lab == l], rcond=None)[0]
            t += float((r ** 2).sum())
        return t
    return f


def iv_score(y, X, Y, Q):
    def f(lab):
        lab = np.array(lab)
        t = 0.
        for l in set(lab.tolist()):
            s = lab == l
            one = np.ones((s.sum(), 1))
            Z = np.hstack([one, X[s], Y[s]])
            H = np.hstack([one, X[s], Q[s]])
            P = H @ la.pinv(H)
            b = la.lstsq(P @ Z, P @ y[s], rcond=None)[0]
            t += float(((y[s] - Z @ b) ** 2).sum())
        return t
    return f


def lattice(t):
    M = (worlds.dense(worlds.make_w(t)) != 0).astype(int)
    M = ((M + M.T) > 0).astype(int)
    return len(M), [(i, j) for i in range(len(M)) for j in range(i + 1, len(M)) if M[i, j]]


def more(what, s, T):
    rng = np.random.default_rng(300 + s)
    n, edges = lattice(("rook:5x7", "queen:5x6")[s % 2] if what.startswith("many") else ("rook:4x5", "queen:5x4")[s % 2])
    w = build(n, edges, strid=bool(s % 2))
    D = rng.normal(size=(n, 2))
    X = rng.normal(size=(n, 2))
    y = X @ rng.normal(size=(2, 1)) * (1 + np.arange(n)[:, None] % 3) + rng.normal(size=(n, 1))
    ols = {"reg": spreg.ols.BaseOLS, "y": y, "x": X}
    if what == "many":                                  # as many clusters as the graph allows
        for k, q in ((9, 1), (11, 2), (n - 1, 1), (8, 3)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, None, data_score(D), k, q, "increase")
    elif what == "manyreg":
        for k, q in ((7, 4), (8, 4)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, ols, ols_score(y, X), k, q, "increase")
    elif what in ("affinity", "rbf"):                   # the dissimilarity is minus the logarithm of the affinity
        from sklearn.metrics import pairwise as pw
        from scipy.spatial.distance import cdist
        pos = 1 if what == "affinity" else 2
        aff = (lambda A, B=None: np.exp(-cdist(A, A if B is None else B))) if pos == 1 else pw.rbf_kernel
        g = 1. if pos == 1 else 1. / D.shape[1]
        def sc(lab):
            lab = np.array(lab)
            return float(sum((np.sqrt(((D[lab == l] - D[lab == l].mean(0)) ** 2).sum(1)) ** pos * g).sum() for l in set(lab.tolist())))
        for k, q in ((2, 1), (4, 3), (7, 1)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, None, sc, k, q, "increase", {"affinity": aff}, power=pos)
    elif what == "affreg":
        from scipy.spatial.distance import cdist
        for k, q in ((2, 5), (3, 4)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, ols, ols_score(y, X), k, q, "increase", {"affinity": lambda A: np.exp(-cdist(A, A) ** 2)}, power=2)
    elif what == "wreg":                                # the model of a cluster gets the weights of its observations, in their order
        def resid(yy, XX, A):
            e = yy - XX @ la.lstsq(XX, yy, rcond=None)[0]
            v = (np.arange(len(yy)) % 4 + 1.)[:, None]
            return e + 0.4 * A @ (v * e)
        class WithW(object):
            def __init__(self, y, x, w):
                self.u = resid(y, x, w.full()[0])
        M = np.zeros((n, n))
        for a, b in edges:
            M[a, b] = M[b, a] = 1
        def sc(lab):
            lab = np.array(lab)
            t = 0.
            for l in set(lab.tolist()):
                i = np.nonzero(lab == l)[0]
                t += float((resid(y[i], np.column_stack([np.ones(len(i)), X[i]]), M[np.ix_(i, i)]) ** 2).sum())
            return t
        for k, q in ((2, 5), (3, 4)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, {"reg": WithW, "y": y, "x": X, "w": w}, sc, k, q, "increase")
    elif what == "ivdep":                               # an endogenous regressor and its instrument that are zero in some candidate clusters
        d = (np.arange(n) >= n // 2) * 1.
        D[:, 0] += 6 * d
        e = rng.normal(size=(n, 2))
        Q = np.column_stack([e[:, 0] + rng.normal(size=n), rng.normal(size=n), (e[:, 1] + rng.normal(size=n)) * d])
        Y = np.column_stack([e[:, 0] + 0.5 * rng.normal(size=n), e[:, 1] * d])
        y = X[:, :1] + np.where(np.arange(n) % 10 < 5, 3, -2)[:, None] * Y[:, :1] + Y[:, 1:] + 0.3 * rng.normal(size=(n, 1))
        Y[:, 0] *= (1., .005)[s % 2]
        Q *= (1., .004)[s % 2]
        for k, q in ((2, 7), (3, 5) if s % 2 else (2, 8)):
            observe(T, "k%d_q%d" % (k, q), w, n, edges, D, {"reg": spreg.twosls.BaseTSLS, "y": y, "x": X, "yend": Y, "q": Q}, iv_score(y, X, Y, Q), k, q, "increase")
    else:                                               # regressors without variation inside some candidate clusters
        X = np.column_stack([rng.normal(size=n), (np.arange(n) >= n // 2) * 1.])
        X[:, 0] *= (1., .005)[s % 2]
        y = X[:, :1] / X[:, :1].std() * np.where(np.arange(n) % 10 < 5, 3, -2)[:, None] + 2 * X[:, 1:] + 0.3 * rng.normal(size=(n, 1))
        for k, q in ((2, 4), (3, 4), (4, 3)):
            if what == "dummy":
                observe(T, "k%d_q%d" % (k, q), w, n, edges, D, {"reg": spreg.ols.BaseOLS, "y": y, "x": X}, ols_score(y, X), k, q, "increase")
            else:
                observe(T, "k%d_q%d" % (k, q), w, n, edges, D, {"reg": SM, "y": y.ravel(), "x": X}, ols_score(y, X), k, q, "increase", model_family="statsmodels")


def run(p, T):
    if p[0] == "graphs":
        _, n, lo, hi, vi = p
        allE = list(itertools.combinations(range(n), 2))
        for code in range(lo, hi):
            edges = [e for j, e in enumerate(allE) if code >> j & 1]
            nc = len(set(comps(n, edges)))
            D = np.array(VALS[vi][:n])[:, None]
            if (code + vi) % 3 == 0:
                D = np.hstack([D, (D[::-1] * 1.7) ** 0.5])
            w = build(n, edges, strid=code % 2 == 1)
            if code % 5 == 2 and edges:
                w.transform = "r"
            sc = data_score(D)
            for quorum, k, islands in [(-INF, n, "ignore"), (1, 2, "increase"), (2, n // 2 - (n % 2 == 0), "ignore")] + ([(-INF, 3, "ignore"), (1, 3, "increase")] if nc > 1 else [(2, 2, "increase"), (1, 3, "increase")]):
                if k * max(quorum, 0) >= n and code % 16:
                    continue
                sr = observe(T, "g%d/q%s_k%d_%s" % (code, quorum, k, islands), w, n, edges, D, None, sc, k, quorum, islands)
                if sr is not None and code % 4 == 0:
                    s2 = quiet(lambda: Skater_reg().fit(k, w, D, None, quorum=quorum, trace=False, islands=islands, verbose=0))
                    T.eq("g%d/trace_false" % code, s2.current_labels_.tolist(), sr.current_labels_.tolist())
    elif p[0] == "ties":
        _, n, lo, hi = p
        allE = list(itertools.combinations(range(n), 2))
        for code in range(lo, hi):
            edges = [e for j, e in enumerate(allE) if code >> j & 1]
            w = build(n, edges)
            for bits in itertools.product((0., 1.), repeat=n):
                if bits[0] == 1.:
                    continue
                D = np.array(bits)[:, None]
                observe(T, "g%d/%s" % (code, "".join(str(int(b)) for b in bits)), w, n, edges, D, None, data_score(D), 3, -INF, "ignore")
            observe(T, "g%d/nodata" % code, w, n, edges, None, None, data_score(np.ones((n, 1))), 2, 1, "ignore")
    elif p[0] == "more":
        more(p[1], p[2], T)
    else:
        _, t, model_, s, ncomp = p
        rng = np.random.default_rng(100 + s)
        if t == "blocks":
            a = worlds.make_w("rook:3x4"); A = (worlds.dense(a) != 0).astype(int)
            b = worlds.make_w("queen:3x3"); B = (worlds.dense(b) != 0).astype(int)
            M = np.zeros((21, 21), int); M[:12, :12] = A; M[12:, 12:] = B
        else:
            M = (worlds.dense(worlds.make_w(t)) != 0).astype(int)
            M = ((M + M.T) > 0).astype(int)
        n = len(M)
        edges = [(i, j) for i in range(n) for j in range(i + 1, n) if M[i, j]]
        w = build(n, edges, strid=bool(s % 2))
        if s % 2 == 0:
            w.transform = "r"
        W = w.full()[0]
        k = 1 + s % 2
        X = rng.normal(size=(n, k))
        reg = np.arange(n) % 5 < 2
        Y = rng.normal(size=(n, 1)); Q = np.hstack([Y + rng.normal(size=(n, 1)), rng.normal(size=(n, 1))])
        y = X.sum(1, keepdims=True) * np.where(reg, 3, -1)[:, None] + np.where(reg, 2, 0)[:, None] + 0.3 * Y + rng.normal(size=(n, 1)) * 0.3
        D = (X - X.mean(0)) / X.std(0)
        sk, kw = {}, {}
        if model_ in ("BaseOLS", "OLS"):
            cls = spreg.ols.BaseOLS if model_ == "BaseOLS" else spreg.OLS
            dreg, sc = {"reg": cls, "y": y, "x": X}, ols_score(y, X)
        elif model_ == "sm":
            dreg, sc = {"reg": SM, "y": y.ravel(), "x": X}, ols_score(y, X)
            kw = {"model_family": "statsmodels"}
        elif model_ in ("BaseTSLS", "TSLS"):
            cls = spreg.twosls.BaseTSLS if model_ == "BaseTSLS" else spreg.TSLS
            dreg, sc = {"reg": cls, "y": y, "x": X, "yend": Y, "q": Q}, iv_score(y, X, Y, Q)
        elif model_ in ("GM_Lag", "BaseGM_Lag"):
            cls = spreg.twosls_sp.BaseGM_Lag if model_ == "BaseGM_Lag" else spreg.GM_Lag
            dreg, sc = {"reg": cls, "y": y, "x": X, "w": w}, iv_score(y, X, W @ y, W @ X)
        elif model_ == "none":
            dreg, sc = None, data_score(D)
        elif model_ == "median":
            dreg, sc, sk = None, data_score(D, np.median), {"center": np.median}
        else:
            f = np.max if model_ == "max" else np.mean
            dreg, sc, sk = None, data_score(D, red=f), {"reduction": f}
        iv = model_.endswith(("TSLS", "Lag"))            # at least as many observations as instruments
        for quorum in ((2 * k + 3, 2 * k + 4) if iv else (k + 2, k + 4) if dreg is not None else (1, 3)):
            for nk in (2, 3, 4):
                for islands in (("increase", "ignore") if ncomp > 1 else ("increase",)):
                    if n <= nk * quorum and nk > 2:
                        continue
                    kk = nk - 2 if ncomp > 1 and islands == "increase" else nk
                    observe(T, "q%d_k%d_%s" % (quorum, kk, islands), w, n, edges, D, dreg, sc, kk, quorum, islands, sk, **kw)
