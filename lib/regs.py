"""Registry of the regimes estimators and of the plain estimators they must agree with."""
import numpy as np
import worlds

# name -> (regimes class, plain class, needs endogenous?, lag in model?, separation keywords)
SEP = {"regime_err_sep": True}
SEPL = {"regime_err_sep": True, "regime_lag_sep": True}
FAM = {
    "ols": ("OLS_Regimes", "OLS", 0, 0, SEP),
    "tsls": ("TSLS_Regimes", "TSLS", 1, 0, SEP),
    "gmlag": ("GM_Lag_Regimes", "GM_Lag", None, 1, SEPL),
    "error": ("GM_Error_Regimes", "GM_Error", 0, 0, SEP),
    "error_het": ("GM_Error_Het_Regimes", "GM_Error_Het", 0, 0, SEP),
    "error_hom": ("GM_Error_Hom_Regimes", "GM_Error_Hom", 0, 0, SEP),
    "endog": ("GM_Endog_Error_Regimes", "GM_Endog_Error", 1, 0, SEP),
    "endog_het": ("GM_Endog_Error_Het_Regimes", "GM_Endog_Error_Het", 1, 0, SEP),
    "endog_hom": ("GM_Endog_Error_Hom_Regimes", "GM_Endog_Error_Hom", 1, 0, SEP),
    "combo": ("GM_Combo_Regimes", "GM_Combo", None, 1, SEPL),
    "combo_het": ("GM_Combo_Het_Regimes", "GM_Combo_Het", None, 1, SEPL),
    "combo_hom": ("GM_Combo_Hom_Regimes", "GM_Combo_Hom", None, 1, SEPL),
    "mllag": ("ML_Lag_Regimes", "ML_Lag", 0, 1, {"regime_lag_sep": True}),
    "mlerr": ("ML_Error_Regimes", "ML_Error", 0, 0, SEP),
}
NEEDS_W = {f for f in FAM if f not in ("ols", "tsls")}


def cls(name):
    import spreg
    return getattr(spreg, name)


def sub_w(w, ids):
    """weights restricted to positions ids, independent of spreg"""
    A = worlds.dense(w)[np.ix_(ids, ids)]
    order = [w.id_order[i] for i in ids]
    s = worlds.from_adj(A, order)
    s.transform = w.transform
    return s


def cls_lag(w, v):
    return worlds.dense(w) @ np.asarray(v, float)


def split(A, flags, regimes, rset):
    """[varying columns for regime 1, ..., varying columns for regime R, global columns]"""
    A = np.asarray(A, float)
    flags = np.array(flags, bool)
    d = [np.array([1.0 if g == r else 0.0 for g in regimes])[:, None] for r in rset]
    V, G = A[:, flags], A[:, ~flags]
    return np.hstack([V * m for m in d] + [G])


def split_names(names, flags, rset):
    v = [n for n, f in zip(names, flags) if f]
    g = [n for n, f in zip(names, flags) if not f]
    return ["%s_%s" % (r, n) for r in rset for n in v] + ["_Global_%s" % n for n in g]


def regimes(kind, a, b):
    """label list of an a x b lattice: contiguous strips or scattered; label types vary"""
    col = [j for i in range(a) for j in range(b)]
    row = [i for i in range(a) for j in range(b)]
    n = a * b
    if kind == "cols":                  # ints, two halves by column
        return [0 if c < b // 2 else 1 for c in col]
    if kind == "rows_s":                # strings, label of the first rows sorts last
        return ["z" if r < a // 2 else "b" for r in row]
    if kind == "three_s":
        return ["m" if c < b // 3 else ("c" if c < 2 * (b // 3) else "x") for c in col]
    if kind == "three":                 # scattered, ints not starting at 0, first appearance not sorted
        return [[7, 2, 4][(i * i + i // 3) % 3] for i in range(n)]
    if kind == "alt":
        return [(i + i // b) % 2 for i in range(n)]
    if kind == "uneq":                  # unequal sizes
        return [5 if c < b - 3 else 3 for c in col]
    if kind == "five":                  # numbers whose order differs from the order of their text
        return [[30, 4, 11, 2, 5][min(4, c // (b // 5))] for c in col]
    if kind == "flt":
        return [2.0 if c < b // 2 else 1.0 for c in col]
    raise KeyError(kind)
