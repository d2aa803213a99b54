"""P17: results are equivariant to relabelling the observations."""
import contextlib, io
import numpy as np
import pandas as pd
from libpysal import weights
import allest, deep, worlds

META = {"rule": "a state is (estimator configuration, permutation of the observations, identifier type); the complete result graph of the permuted estimation is compared with the original one, arrays over observations after applying the permutation",
        "assumptions": ["iteratively optimised parameters agree to 1e-4 relative (optimiser stopping tolerance), closed forms to 1e-7", "kernel weights are rebuilt from the permuted coordinates"]}

N = allest.N
SKIP = ("Endog", "NSLX")


def perms(n, a, b):
    rs = np.random.RandomState(3)
    p = {"rev": np.arange(n)[::-1].copy(),
         "rnd": rs.permutation(n),
         "rot": np.roll(np.arange(n), 7),
         "transp": np.arange(n).reshape(a, b).T.ravel(),
         "swap": np.r_[n - 1, np.arange(1, n - 1), 0],
         "evenodd": np.r_[np.arange(0, n, 2), np.arange(1, n, 2)]}
    for i in range(6):
        p["rnd%d" % i] = rs.permutation(n)
    return p


PERMS = perms(N, allest.A, allest.B)
IDK = ("range", "keep", "str")


def permute_w(w, p, idk):
    ids = list(w.id_order)
    if idk == "range":
        new = list(range(len(ids)))
    elif idk == "keep":
        new = [ids[i] for i in p]
    else:
        new = ["u%03d" % ((7 * int(i) + 5) % 1009) for i in range(len(ids))]
    pos = {int(o): k for k, o in enumerate(p)}      # old position -> new position
    nb, wt = {}, {}
    old = {k: i for i, k in enumerate(ids)}
    cur = w.transform
    w.transform = "o"
    for k, o in enumerate(p):
        nb[new[k]] = [new[pos[old[j]]] for j in w.neighbors[ids[o]]]
        wt[new[k]] = list(w.weights[ids[o]])
    w2 = weights.W(nb, wt, id_order=new, silence_warnings=True)
    w.transform = cur
    w2.transform = cur
    return w2


def pm(v, p, n):
    """permute the observations of an argument"""
    if isinstance(v, weights.W):
        raise TypeError
    if isinstance(v, dict):
        return {k: pm(i, p, n) for k, i in v.items()}
    if isinstance(v, list):
        return [v[i] for i in p]
    return rows(v, p, n)


def rows(v, p, n):
    if v.shape[0] == n:
        return v[p]
    t = v.shape[0] // n
    return v[np.concatenate([p + n * i for i in range(t)])]


DATA = ("y", "x", "yend", "q", "regimes", "coords", "bigy", "bigX", "bigyend", "bigq")


def permuted(key, p, idk, wk):
    f, kw = allest.make(key, wk=wk)
    n = len(p)
    for k in kw:
        if k in DATA:
            kw[k] = pm(kw[k], p, n)
        elif k == "w":
            kw[k] = permute_w(kw[k], p, idk)
        elif k == "gwk":
            kw[k] = weights.Kernel(worlds._coords(allest.A, allest.B)[p], k=4, function="triangular", fixed=False, diagonal=True)
    return f, kw


OBS_SKIP = (".w", ".regimes", ".multi", ".summary", ".coords", ".gwk", ".name_", ".title", ".output#", ".sparse", "._")
IGN = (".w#w",)


def quiet(f, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(**kw)


def cases(tier):
    keys = [k for k in allest.CONF if not any(s in k for s in SKIP) and not k.startswith("Panel_")]
    ps = ["rev", "rnd", "rot", "transp", "swap"] if tier == "quick" else list(PERMS)
    out = []
    for k in keys:
        for i, p in enumerate(ps):
            for j, idk in enumerate(IDK):
                if tier == "thorough" or (i + len(k)) % 3 == j:
                    out.append(("%s/%s/%s" % (k, p, idk), (k, p, idk, allest.WK)))
                    for wk in WKS:
                        if wk[:4] != "knn:" or not any(s in k for s in ("ErrorRE", "LagRE")):
                            if tier == "thorough" or i == 1:
                                out.append(("%s/%s/%s/%s" % (k, p, idk, wk), (k, p, idk, wk)))
    for k in ENDOG:
        for p in ps:
            for idk in IDK:
                out.append(("%s/%s/%s" % (k, p, idk), (k, p, idk, allest.WK)))
    return out


WKS = ["knn:6x8", "strid:6x8", "rookb:6x8"]
ENDOG = [k for k in allest.CONF if "Endog_Regimes" in k and allest.CONF[k][2].get("n_clusters") and "Error" not in k]


def partition(lab, p=None):
    lab = np.asarray(lab)
    g = {}
    for i, l in enumerate(lab):
        g.setdefault(l, set()).add(int(i if p is None else p[i]))
    return sorted(map(sorted, g.values()))


def run_endog(case, T):
    key, pk, idk, wk = case
    p = PERMS[pk]
    m0, kw0 = original(key, wk)
    f, kw = permuted(key, p, idk, wk)
    T.call(); T.state(*case)
    m1 = quiet(f, kw)
    T.eq("clusters", partition(m1.clusters, p), partition(m0.clusters))
    T.close("SSR", m1.SSR, m0.SSR, rtol=1e-6)
    T.close("u", np.asarray(m1.u).ravel(), np.asarray(m0.u).ravel()[p], rtol=1e-6)


_base = {}


def original(key, wk):
    if (key, wk) not in _base:
        f, kw = allest.make(key, wk=wk)
        try:
            m = quiet(f, kw)
        except Exception as e:
            if wk == allest.WK:
                raise
            m = e
        _base[key, wk] = (m, kw)
    return _base[key, wk]


def tol(key):
    f = key.split("/")[0]
    if any(s in f for s in ("GM_Error", "Endog_Error", "Combo", "GMM", "KKP", "SURerror", "ML_", "Probit", "NSLX")) or "iter" in key:
        return 1e-4
    return 1e-7


def compare(T, pre, m0, m1, p, n, rtol):
    A = deep.flatten(m0)
    B = deep.flatten(m1)
    for k in sorted(set(A) | set(B)):
        if any(k.startswith(s) or (s + "[") in k for s in (".w", ".regimes", ".multi", ".summary", ".coords", ".gwk", "._")):
            continue
        if k not in A or k not in B:
            T.fail("%sattr%s" % (pre, k), "only in %s" % ("permuted" if k not in A else "original"))
            continue
        a, b = A[k], B[k]
        if a[0] == "v" or b[0] == "v":
            T.compared += 1
            if not k.endswith("#shape") and a != b and not k.startswith((".set_", ".islands")):
                T.fail("%svalue%s" % (pre, k), "%s != %s" % (str(a[1])[:200], str(b[1])[:200]))
            continue
        want = np.asarray(a[1])
        if want.ndim and want.shape[0] and want.shape[0] % n == 0 and want.size >= n:
            want = rows(want, p, n)
        elif want.ndim == 2 and want.shape[1] == n:
            want = want[:, p]
        T.close("%s%s" % (pre, k), b[1], want, rtol=rtol, atol=1e-11 + rtol * (np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 0))


def run(case, T):
    if case[0] in ENDOG:
        return run_endog(case, T)
    key, pk, idk, wk = case
    p = PERMS[pk]
    m0, kw0 = original(key, wk)
    f, kw = permuted(key, p, idk, wk)
    T.call(); T.state(*case)
    if isinstance(m0, Exception):       # weights the estimator refuses: refused in every order
        T.raises("refused", lambda: quiet(f, kw), type(m0))
        return
    m1 = quiet(f, kw)
    n = len(p)
    rtol = tol(key)
    compare(T, "", m0, m1, p, n, rtol)
    if hasattr(m0, "multi"):
        T.eq("multi/keys", sorted(map(str, m1.multi)), sorted(map(str, m0.multi)))
        reg = np.array([str(r) for r in kw0["regimes"]])
        for r in m0.multi:
            ids0 = np.nonzero(reg == str(r))[0]
            ids1 = np.nonzero(reg[p] == str(r))[0]
            sub = np.array([list(ids0).index(p[i]) for i in ids1])
            compare(T, "multi[%s]" % r, m0.multi[r], m1.multi[r], sub, len(ids0), rtol)
