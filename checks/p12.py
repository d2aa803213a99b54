"""P12: cores=True equals sequential estimation under every schedule of the worker tasks."""
import itertools
import multiprocessing as mp
import numpy as np
import deep, sched, worlds, regs

META = {"rule": "per estimator configuration: every order of task execution x every early/late pickling time of each task's arguments (+ eager execution), tasks run at the latest moment the program allows; complete result graph compared exactly with the sequential run; plus runs with the real multiprocessing pool",
        "assumptions": ["worker tasks interact with the parent only through their pickled arguments and results (they are separate processes)",
                        "within the program, the parent blocks only in join()/get()"]}

OPT = {
    "ols": [{}, {"robust": "white"}, {"slx_lags": 1}, {"slx_lags": 2, "slx_vars": "mask"}, {"robust": "hac", "gwk": 1}, {"spat_diag": True, "moran": True}, {"constant_regi": "many", "vm": True, "white_test": True}],
    "tsls": [{}, {"robust": "white"}, {"slx_lags": 1}, {"spat_diag": True, "vm": True}],
    "gmlag": [{}, {"yend": 1}, {"slx_lags": 1}, {"w_lags": 2, "robust": None, "spat_impacts": "all"}, {"slx_lags": 1, "slx_vars": "mask", "yend": 1}],
    "error": [{}, {"slx_lags": 1}, {"vm": True}],
    "error_het": [{}, {"slx_lags": 1}, {"max_iter": 2, "step1c": True}],
    "error_hom": [{}, {"slx_lags": 1}, {"max_iter": 2, "A1": "hom"}],
    "endog": [{}, {"slx_lags": 1}],
    "endog_het": [{}, {"slx_lags": 1}, {"max_iter": 2, "step1c": True, "inv_method": "true_inv"}],
    "endog_hom": [{}, {"slx_lags": 1}, {"max_iter": 2, "A1": "hom_sc"}],
    "combo": [{}, {"yend": 1}, {"slx_lags": 1}, {"w_lags": 2}],
    "combo_het": [{}, {"yend": 1}, {"slx_lags": 1}],
    "combo_hom": [{}, {"yend": 1}, {"slx_lags": 1}],
    "mllag": [{}, {"slx_lags": 1}, {"spat_impacts": "full", "vm": True, "method": "ord"}],
    "mlerr": [{}, {"slx_lags": 1}, {"method": "lu"}],
}
REG3 = ["three_s", "three"]


def scheds(nr):
    for order in itertools.permutations(range(nr)):
        for late in itertools.product([False, True], repeat=nr):
            yield order, late, False
    yield tuple(range(nr)), (False,) * nr, True


def cases(tier):
    out = []
    for f in regs.FAM:
        for i, o in enumerate(OPT[f]):
            out.append(("sched/%s/%d" % (f, i), ("sched", f, o, 3, "three_s")))
            if tier == "thorough":
                out.append(("sched4/%s/%d" % (f, i), ("sched", f, o, 4, "four")))
                out.append(("sched2/%s/%d" % (f, i), ("sched", f, o, 2, "rows_s")))
    fams = list(regs.FAM) if tier == "thorough" else ["ols", "gmlag", "combo_het", "mllag"]
    for f in fams:
        out.append(("real/%s" % f, ("real", f, OPT[f][0], 3, "three_s")))
    return out


def config(fam, o, nr, rk):
    clsn, _, nend, lag, sep = regs.FAM[fam]
    wd = worlds.World("queen:8x9", k=3, e=1, m=2, rho=0.25, seed=3)
    if rk == "four":
        R = [["q", "d", "p", "a"][2 * (i // 9 >= 4) + (i % 9 >= 5)] for i in range(72)]
    else:
        R = regs.regimes(rk, 8, 9)
    kw = dict(y=wd.y, x=wd.x, regimes=R, name_x=["a", "b", "c"], name_y="resp", name_regimes="rg", name_w="ww", name_ds="dd")
    if fam not in ("ols", "tsls") or o.get("slx_lags") or o.get("spat_diag"):
        kw["w"] = wd.w
    if nend or o.get("yend"):
        kw.update(yend=wd.yend, q=wd.q, name_yend=["e1"], name_q=["q1", "q2"])
    kw.update({k: v for k, v in o.items() if k not in ("yend", "gwk", "slx_vars")})
    if o.get("slx_vars") == "mask":
        kw["slx_vars"] = [True, False, True]
    if o.get("gwk"):
        kw["gwk"] = wd.kernel()
    kw.update(sep)
    return clsn, kw


def call(clsn, kw, cores):
    """(snapshot, None) or (None, exception text)"""
    k2 = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    try:
        m = regs.cls(clsn)(cores=cores, **k2)
    except Exception as e:
        return None, repr(e)
    return deep.freeze(m), None


def run(payload, T):
    mode, fam, o, nr, rk = payload
    # allow real pools below this worker
    mp.current_process()._config["daemon"] = False
    clsn, kw = config(fam, o, nr, rk)
    base, err = call(clsn, kw, False)
    T.call()
    if mode == "real":
        got, e2 = call(clsn, kw, True)
        T.call()
        T.state(fam, "real")
        judge(T, "real", base, err, got, e2, 1e-12)
        return
    for order, late, eager in scheds(nr):
        tag = "%s|%s%s" % ("".join(map(str, order)), "".join("L" if l else "e" for l in late), "|eager" if eager else "")
        with sched.Schedule(order, late, eager) as S:
            got, e2 = call(clsn, kw, True)
        T.call()
        T.state(fam, repr(o), order, late, eager)
        if err is None and not S.tasks and not (o.get("robust") == "hac"):
            continue    # parallelised by other means than multiprocessing.Pool: only the final state is compared
        judge(T, tag, base, err, got, e2)


def judge(T, tag, base, err, got, e2, rtol=0.0):
    T.compared += 1
    if (err is None) != (e2 is None):
        T.fail("schedule", "%s: sequential %s, parallel %s" % (tag, err, e2))
        return
    if err is not None:
        T.fail("raises", "%s: both %s" % (tag, err))
        return
    d = deep.diff(base, got, rtol=rtol)
    if d:
        T.fail("schedule", "%s: %d differences from sequential: %s" % (tag, len(d), d[:4]))
