"""Deep, order-preserving snapshots of result objects and inputs, and their comparison."""
import numpy as np
import pandas as pd
from scipy import sparse as sp
from libpysal import weights

SKIP = {"_cache"}


def props(cls):
    """names of the public properties of a class"""
    out = []
    for c in cls.__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith("_") and k not in out:
                out.append(k)
    return sorted(out)


def flatten(o, path="", out=None, depth=0, withprops=True, seen=None):
    """dict path -> leaf, where a leaf is ('a', array) or ('v', repr)"""
    if out is None:
        out = {}
    seen = seen or ()
    if id(o) in seen:
        out[path] = ("v", "<cycle>")
        return out
    if depth > 8:
        out[path] = ("v", "<deep>")
        return out
    sub = seen + (id(o),)
    if o is None or isinstance(o, (bool, str, bytes)):
        out[path] = ("v", repr(o))
    elif isinstance(o, (int, float, complex, np.number)):
        out[path] = ("a", np.asarray(o))
    elif isinstance(o, np.ndarray):
        if o.dtype == object or o.dtype.kind in "US":
            out[path + "#shape"] = ("v", repr(o.shape))
            out[path] = ("v", repr([str(i) for i in o.ravel()]))
        else:
            out[path] = ("a", o)
    elif sp.issparse(o):
        out[path] = ("a", o.toarray())
    elif isinstance(o, pd.DataFrame):
        out[path + "#cols"] = ("v", repr(list(o.columns)))
        out[path + "#idx"] = ("v", repr(list(o.index)))
        for i, c in enumerate(o.columns):
            flatten(o.iloc[:, i].tolist(), "%s[%s]" % (path, c), out, depth + 1, withprops, sub)
    elif isinstance(o, pd.Series):
        out[path + "#idx"] = ("v", repr((list(o.index), o.name)))
        flatten(o.tolist(), path, out, depth + 1, withprops, sub)
    elif isinstance(o, (list, tuple)):
        out[path + "#len"] = ("v", repr(len(o)))
        if o and all(isinstance(i, (int, float, np.number)) and not isinstance(i, bool) for i in o):
            out[path] = ("a", np.array([float(i) for i in o]))
        else:
            for i, v in enumerate(o):
                flatten(v, "%s[%d]" % (path, i), out, depth + 1, withprops, sub)
    elif isinstance(o, (set, frozenset)):
        out[path] = ("v", repr(sorted(map(str, o))))
    elif isinstance(o, dict):
        out[path + "#keys"] = ("v", repr([str(k) for k in o]))
        for k in o:
            flatten(o[k], "%s[%s]" % (path, k), out, depth + 1, withprops, sub)
    elif isinstance(o, weights.W):
        out[path] = ("v", "W %s %r" % (o.transform, list(o.id_order)))
        out[path + "#w"] = ("a", o.sparse.toarray())
    elif callable(o) or isinstance(o, type):
        out[path] = ("v", "<callable>")
    elif hasattr(o, "__dict__"):
        d = dict(vars(o))
        for k in SKIP:
            d.pop(k, None)
        if withprops and type(o).__module__.startswith("spreg"):
            for k in props(type(o)):
                try:
                    d[k] = getattr(o, k)
                except Exception as e:
                    d[k] = "<raises %s>" % type(e).__name__
        for k in sorted(d):
            flatten(d[k], path + "." + k, out, depth + 1, withprops, sub)
    else:
        out[path] = ("v", repr(o))
    return out


def same_leaf(a, b, rtol=0.0, atol=0.0):
    if a[0] != b[0]:
        return False
    if a[0] == "v":
        return a[1] == b[1]
    x, y = np.asarray(a[1]), np.asarray(b[1])
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if not rtol and not atol:
        return bool(((x == y) | ((x != x) & (y != y))).all())
    return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))


def diff(A, B, rtol=0.0, atol=0.0, ignore=()):
    """list of (path, detail) where two flattened snapshots differ"""
    out = []
    for k in list(A) + [k for k in B if k not in A]:
        if any(k == i or k.startswith(i) for i in ignore):
            continue
        if k not in A or k not in B:
            out.append((k, "only in %s" % ("second" if k not in A else "first")))
        elif not same_leaf(A[k], B[k], rtol, atol):
            out.append((k, "%s  !=  %s" % (str(A[k][1])[:200], str(B[k][1])[:200])))
    return out


def freeze(o):
    """copy of a flattened snapshot (arrays copied) for later comparison"""
    return {k: (t, v.copy() if isinstance(v, np.ndarray) else v) for k, (t, v) in flatten(o).items()}
