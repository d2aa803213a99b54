"""Comparison of the inference part shared by all estimators: std errors, z/t statistics, output table."""
import numpy as np
import ref


def inference(T, key, m, betas, vm, names=None, df=None, rtol=1e-6, ptol=1e-6, vm_rtol=None):
    """betas/vm: what the model says the estimator must report (k x 1, k x k)"""
    betas = np.asarray(betas, float).reshape(-1, 1)
    k = betas.shape[0]
    T.close(key + "betas", m.betas, betas, rtol)
    T.close(key + "vm", m.vm, vm, vm_rtol or rtol, shape=True)
    table(T, key, m, betas, np.asarray(vm), names, df, max(rtol, vm_rtol or 0), ptol)


def table(T, key, m, betas, vm, names=None, df=None, rtol=1e-6, ptol=1e-6):
    betas = np.asarray(betas, float).reshape(-1, 1)
    k = vm.shape[0]
    b = betas[:k]
    d = np.diag(vm)
    if (d <= 0).any():
        return
    se, t, p = ref.t_table(b, vm, df)
    T.close(key + "std_err", m.std_err, se, rtol)
    zt = m.t_stat if df else m.z_stat
    at = rtol * max(1.0, float(np.abs(t).max()))
    T.close(key + "zt", [v[0] for v in zt], t, rtol, atol=at)
    T.close(key + "p", [v[1] for v in zt], p, 10 * ptol, atol=ptol * max(1.0, float(np.abs(t).max())))
    o = m.output
    T.eq(key + "rows", len(o), betas.shape[0])
    if names is not None:
        T.eq(key + "names", list(o["var_names"]), list(names))


def selfconsistent(T, key, m, df=None, rtol=1e-9):
    """std errors / statistics / output rows follow from the reported betas and vm"""
    b = np.asarray(m.betas, float).reshape(-1, 1)
    vm = np.asarray(m.vm)
    table(T, key + "self/", m, b, vm, None, df, rtol, 1e-8)
    o = m.output
    if o.shape[0] == b.shape[0]:
        T.close(key + "self/out.coef", np.sort(o["coefficients"].to_numpy(float)), np.sort(b.ravel()), rtol)


def eval_name(name, base, W, const=True):
    """Column denoted by a reported variable name: base names, and W_v / Wj_v = spatial lag of order j of v."""
    import re
    if name in base:
        return np.asarray(base[name], float).reshape(-1, 1)
    m = re.match(r"^W(\d*)_(.+)$", name)
    if not m:
        raise KeyError(name)
    c = eval_name(m.group(2), base, W)
    for _ in range(int(m.group(1) or 1)):
        c = W @ c
    return c


def names_denote(T, key, names, H, base, W, rtol=1e-9):
    H = H.toarray() if hasattr(H, "toarray") else np.asarray(H)
    if not T.true(key + "count", len(names) == H.shape[1], "%d names %s for %d columns" % (len(names), names, H.shape[1])):
        return
    T.true(key + "unique", len(set(names)) == len(names), names)
    for j, nme in enumerate(names):
        try:
            c = eval_name(nme, base, W)
        except KeyError:
            T.fail(key + "unknown", "name %r denotes nothing" % nme)
            continue
        T.close(key + "col", H[:, j], c, rtol)
