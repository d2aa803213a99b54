"""Bounded exhaustive explorer.

A property module (checks/<id>.py) defines a finite space of behaviours
(`cases(tier)`) and a monitor (`run(case, T)`) that executes the real code of
/repo on one element of that space and compares every observable it looks at
with an executable reference model (lib/ref.py, or a model in the module).
The harness walks *all* the elements (no sampling), in worker processes, counts
what was covered, and reports.

exit 0: held on everything explored;  exit 1: `VIOLATION property=.. replay=..`
"""
import sys, os, io, json, time, signal, traceback, fnmatch, importlib, warnings, random
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("REPO_UNDER_TEST", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

CASE_TIMEOUT = int(os.environ.get("SPREG_MC_CASE_TIMEOUT", "300"))
GRACE = float(os.environ.get("SPREG_MC_GRACE", "90"))    # how long a run goes on exploring after its first violation
MAXREP = 200


class CaseTimeout(Exception):
    pass


class Tracker(object):
    """Monitor state of one case."""

    def __init__(self, key):
        self.key = key
        self.fails = []      # (finding key, detail)
        self.calls = 0       # entry-point executions of the real code
        self.compared = 0    # observables compared with the model
        self.states = set()  # distinct configurations / states visited

    def state(self, *k):
        self.states.add(repr(k))

    def call(self, n=1):
        self.calls += n

    def fail(self, name, detail=""):
        self.fails.append((self.key + "/" + str(name), str(detail)[:1500]))

    def true(self, name, cond, detail=""):
        self.compared += 1
        if not cond:
            self.fail(name, detail)
        return bool(cond)

    def eq(self, name, got, want):
        self.compared += 1
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            self.fail(name, "got %r want %r" % (got, want))
        return ok

    def close(self, name, got, want, rtol=1e-8, atol=None, shape=False, alt=None):
        """alt: a second acceptable value"""
        import numpy as np
        self.compared += 1
        if alt is not None:
            nf = len(self.fails)
            if self.close(name, got, alt, rtol, atol, shape):
                return True
            del self.fails[nf:]
        try:
            if got is None:
                raise TypeError("got None")
            g = np.asarray(got.toarray() if hasattr(got, "toarray") else got)
            w = np.asarray(want.toarray() if hasattr(want, "toarray") else want)
            if g.dtype == object:
                g = g.astype(float)
            g = g.astype(complex) if np.iscomplexobj(g) else g.astype(float)
            w = w.astype(complex) if np.iscomplexobj(w) else w.astype(float)
        except Exception as e:
            self.fail(name, "not numeric: %r (%s)" % (got, e))
            return False
        if shape and g.shape != w.shape:
            self.fail(name, "shape %s want %s" % (g.shape, w.shape))
            return False
        if g.size != w.size:
            self.fail(name, "size %s want %s" % (g.shape, w.shape))
            return False
        g1, w1 = g.ravel(), w.ravel()
        if w1.size == 0:
            return True
        if atol is None:
            fin = np.abs(w1[np.isfinite(w1)])
            atol = rtol * (float(fin.max()) if fin.size else 1.0) + 1e-300
        bothnan = np.isnan(g1) & np.isnan(w1)
        with np.errstate(all="ignore"):
            ok = (np.abs(g1 - w1) <= atol + rtol * np.abs(w1)) | bothnan | (g1 == w1)
        if not ok.all():
            i = int(np.nonzero(~ok)[0][0])
            self.fail(name, "differs at %d: got %r want %r (%d of %d entries; got %s want %s)" % (
                i, g1[i], w1[i], int((~ok).sum()), ok.size, np.array2string(g1[:8]), np.array2string(w1[:8])))
            return False
        return True

    def raises(self, name, fn, exc=Exception):
        """fn must raise"""
        self.compared += 1
        try:
            r = fn()
        except CaseTimeout:
            raise
        except exc:
            return True
        except BaseException as e:
            self.fail(name, "raised %r instead" % (e,))
            return False
        self.fail(name, "accepted (no exception)")
        return False


def _load(pid):
    return importlib.import_module(pid.lower())


_mod = None


def _init(pid):
    global _mod
    warnings.simplefilter("ignore")
    # spreg prints in places; the check's stdout is a protocol
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = io.StringIO()
    if not os.environ.get("SPREG_MC_STDERR"):
        os.dup2(devnull, 2)
    import numpy as np
    np.seterr(all="ignore")


def _alarm(sig, frm):
    raise CaseTimeout()


def _work(item):
    key, case = item
    T = Tracker(key)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    sys.stdout = io.StringIO()
    try:
        _mod.run(case, T)
    except CaseTimeout:
        T.fail("timeout", "no answer within %d s" % CASE_TIMEOUT)
    except BaseException as e:
        T.fail("exception:" + type(e).__name__, traceback.format_exc()[-1400:])
    finally:
        signal.alarm(0)
    if not T.states:
        T.states.add(key)
    return key, T.fails, T.calls, T.compared, len(T.states), time.time() - t0


def _batch(items):
    return [_work(i) for i in items]


def _work_list(items):
    return [_work(i) for i in items]


def load_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body, _, desc = line[len("finding:"):].partition("::")
            d = dict(tok.split("=", 1) for tok in body.split())
            if d.get("property") == pid:
                out.append((d["key"], desc.strip()))
    return out


def main(argv):
    pid = argv[0]
    only = None
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--only":
            only = rest.pop(0)
        elif a == "--tier":
            tier = rest.pop(0)
        elif a == "--replay":
            only = json.load(open(rest.pop(0)))["case"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, pid + ".json")
    repf = os.path.join(evdir, "replay_%s.json" % pid)
    for f in (evf, repf):
        if os.path.exists(f):
            os.remove(f)
    global _mod
    fails, calls, compared, nstates, done = [], 0, 0, 0, 0
    times = []
    meta = {}
    cases = []
    real_stdout = sys.stdout
    try:
        sys.stdout = io.StringIO()
        _mod = _load(pid)
        meta = getattr(_mod, "META", {})
        cases = list(_mod.cases(tier))
        sys.stdout = real_stdout
    except BaseException:
        sys.stdout = real_stdout
        fails.append((pid + "/setup", traceback.format_exc()[-1500:]))
    keys = [k for k, _ in cases]
    if len(set(keys)) != len(keys):
        dup = sorted(k for k in set(keys) if keys.count(k) > 1)
        raise SystemExit("internal: duplicate case keys %s" % dup[:5])
    if only:
        cases = [c for c in cases if fnmatch.fnmatch(c[0], only)]
    # the order of exploration is the only thing the seed changes
    random.Random(seed).shuffle(cases)
    nproc = int(os.environ.get("SPREG_MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
    known = load_findings(pid)
    if cases and not fails:
        ctx = mp.get_context("fork")
        serial = getattr(_mod, "SERIAL", False)
        with ctx.Pool(1 if serial else nproc, initializer=_init, initargs=(pid,)) as pool:
            chunk = max(1, min(16, len(cases) // (nproc * 8) or 1))
            it = pool.imap_unordered(_batch, [cases[i:i + chunk] for i in range(0, len(cases), chunk)], chunksize=1)
            first = None
            while first is None or time.time() - first < GRACE:
                try:
                    batch = it.next(timeout=1 if first is None else max(0.05, min(1, first + GRACE - time.time())))
                except mp.TimeoutError:
                    continue
                except StopIteration:
                    break
                for key, f, c, cmp_, ns, dt in batch:
                    done += 1
                    calls += c
                    compared += cmp_
                    nstates += ns
                    times.append((dt, key))
                    fails.extend(f)
                    if first is None and any(not any(fnmatch.fnmatchcase(k, pat) for pat, _ in known) for k, _ in f):
                        first = time.time()
            if done < len(cases):
                print("stopped after the first violation: %d of %d cases explored" % (done, len(cases)))
                pool.terminate()
    hit, bad = {}, []
    for k, d in fails:
        for pat, desc in known:
            if fnmatch.fnmatchcase(k, pat):
                hit.setdefault(pat, []).append(k)
                break
        else:
            bad.append((k, d))
    for pat, desc in known:
        if pat in hit:
            print("KNOWN-FINDING: property=%s %s [%s; %d occurrence(s)]" % (pid, desc, pat, len(hit[pat])))
        elif not only:
            print("note: listed finding %s of %s was not reproduced on this tree" % (pat, pid))
    wall = time.time() - t0
    samples = [k for _, k in sorted(times, key=lambda t: t[1])[:: max(1, len(times) // 8)]][:8]
    cov = {
        "states": nstates,
        "transitions": calls,
        "traces_validated_against_impl": compared,
        "cases": done,
        "samples": samples or ["none"],
        "rule": meta.get("rule", ""),
        "exhaustive": (not only) and done == len(cases) and not any("/setup" in k for k, _ in bad),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(bad)}
    json.dump(ev, open(evf, "w"), indent=1)
    print("%s tier=%s cases=%d states=%d entry-point executions=%d observables compared=%d wall=%.1fs" % (
        pid, tier, done, nstates, calls, compared, wall))
    if os.environ.get("SPREG_MC_TIMES"):
        for dt, k in sorted(times, reverse=True)[:15]:
            print("  %.2fs %s" % (dt, k))
    if bad:
        bad.sort()
        firstcase = None
        for k in keys:
            if bad[0][0] == k or bad[0][0].startswith(k + "/"):
                firstcase = k
        json.dump({"property": pid, "case": firstcase, "how": "./run.sh %s --replay evidence/replay_%s.json" % (pid, pid),
                   "violations": [{"key": k, "detail": d} for k, d in bad[:MAXREP]], "total": len(bad)}, open(repf, "w"), indent=1)
        n = int(os.environ.get("SPREG_MC_SHOW", "12"))
        groups = {}
        for k, d in bad:
            groups.setdefault(k.rsplit("/", 1)[-1], []).append((k, d))
        for g in sorted(groups, key=lambda g: -len(groups[g]))[:n]:
            k, d = groups[g][0]
            print("  violated x%d: %s: %s" % (len(groups[g]), k, d.strip()[-700:].replace("\n", "\n      ")))
        print("VIOLATION property=%s replay=evidence/replay_%s.json" % (pid, pid))
        return 1
    return 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
