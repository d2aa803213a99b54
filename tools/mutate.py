#!/usr/bin/env python3
"""Development aid (no check uses it): small mutants of spreg that keep the stable tests passing, run against the checks.
usage: mutate.py OUT.jsonl N SEED [file ...]   - needs a copy of /verif (VM, default this tree's) and scratch copies under /tmp/mut.
Stage 1 keeps mutants that import and pass the stable tests; stage 2 runs the checks of MAP[file] until one reports a violation."""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("MUT_SRC", "/repo")
VM = os.environ.get("VM", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
IGN = "test_diagnostics_panel test_nslx test_panel test_sur test_sur_error test_sur_lag".split()
MAP = {
 "ols": "P01 P02 P19 P14 P16 P33", "robust": "P02 P03 P04", "twosls": "P03 P02 P16 P33 P14", "twosls_sp": "P04 P02 P21 P33 P16 P14 P18",
 "error_sp": "P05 P33 P16 P17 P18 P14", "error_sp_het": "P05 P33 P16 P18", "error_sp_hom": "P05 P33 P16 P18", "ml_lag": "P06 P33 P16 P21 P18", "ml_error": "P06 P33 P16 P18",
 "ols_regimes": "P08 P07 P09 P33 P16 P31 P12 P10 P34", "twosls_regimes": "P08 P07 P09 P33 P16 P31 P12 P10 P34", "twosls_sp_regimes": "P08 P07 P09 P33 P16 P31 P12 P10 P04",
 "error_sp_regimes": "P08 P07 P09 P33 P16 P12 P10", "error_sp_het_regimes": "P08 P07 P09 P33 P16 P12 P10", "error_sp_hom_regimes": "P08 P07 P09 P33 P16 P12 P10",
 "ml_lag_regimes": "P06 P07 P08 P09 P33 P16 P12 P10", "ml_error_regimes": "P06 P07 P08 P09 P33 P16 P12 P10", "regimes": "P09 P08 P10 P07", "diagnostics": "P19 P01 P20 P34", "diagnostics_sp": "P20 P32",
 "diagnostics_tsls": "P03 P20 P19", "diagnostics_sur": "P25 P24", "diagnostics_panel": "P26", "diagnostics_probit": "P28", "sur": "P24 P25", "sur_utils": "P24 P25 P15", "sur_lag": "P24 P25",
 "sur_error": "P25", "panel": "P26 P27 P15", "panel_fe": "P27 P26", "panel_re": "P27 P26", "panel_utils": "P26 P27 P15", "sp_panels": "P27 P15", "probit": "P28 P15", "nslx": "P29 P33", "skater_reg": "P30 P31",
 "spsearch": "P32", "utils": "P22 P04 P29 P05 P31 P21 P03 P15", "sputils": "P22 P20 P14", "user_output": "P15 P14 P16 P33 P04", "output": "P33 P16 P21 P09 P01 P20 P07 P08", "dgp": "P23",
}
MAP["summary_output"] = "P33"


def positions(src):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    return off


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    off = positions(src)
    b = src.encode()
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(a, z, new, what, line):
        out.append((a, z, new, what, line))
    CMP = {ast.Lt: ("<", ["<=", ">"]), ast.Gt: (">", [">=", "<"]), ast.LtE: ("<=", ["<"]), ast.GtE: (">=", [">"]), ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="])}
    BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"])}

    class V(ast.NodeVisitor):
        def __init__(s):
            s.fn = []

        def visit_FunctionDef(s, n):
            if n.name in ("_test",):
                return
            s.fn.append(n.name); s.generic_visit(n); s.fn.pop()

        def visit_If(s, n):
            if isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
                return
            if s.fn:
                a, z = seg(n.test)
                put(a, z, "not (%s)" % b[a:z].decode(), "negate", n.lineno)
            s.generic_visit(n)

        def visit_Compare(s, n):
            if s.fn and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                o, rs = CMP[type(n.ops[0])]
                a, z = seg(n.left)[1], seg(n.comparators[0])[0]
                t = b[a:z].decode()
                if t.count(o) == 1:
                    for r in rs:
                        put(a, z, t.replace(o, r), "cmp", n.lineno)
            s.generic_visit(n)

        def visit_BinOp(s, n):
            if s.fn and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
                o, rs = BIN[type(n.op)]
                a, z = seg(n.left)[1], seg(n.right)[0]
                t = b[a:z].decode()
                if t.count(o) == 1:
                    for r in rs:
                        put(a, z, t.replace(o, r), "arith", n.lineno)
            s.generic_visit(n)

        def visit_BoolOp(s, n):
            if s.fn:
                a, z = seg(n.values[0])[1], seg(n.values[1])[0]
                t = b[a:z].decode()
                o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if t.count(o) == 1:
                    put(a, z, t.replace(o, r), "bool", n.lineno)
            s.generic_visit(n)

        def visit_UnaryOp(s, n):
            if s.fn and isinstance(n.op, ast.Not):
                a, z = seg(n)
                a2, z2 = seg(n.operand)
                put(a, z, b[a2:z2].decode(), "unnot", n.lineno)
            s.generic_visit(n)

        def visit_Constant(s, n):
            if s.fn and id(n) not in doc:
                a, z = seg(n)
                v = n.value
                if v is True or v is False:
                    put(a, z, str(not v), "const", n.lineno)
                elif isinstance(v, int):
                    put(a, z, str(v + 1), "const", n.lineno)
                    if v > 0:
                        put(a, z, str(v - 1), "const", n.lineno)
                elif isinstance(v, float):
                    put(a, z, repr(v * 1.05 if v else 0.01), "const", n.lineno)

        def visit_Attribute(s, n):
            if s.fn and n.attr == "T":
                a, z = seg(n); a2, z2 = seg(n.value)
                put(a, z, b[a2:z2].decode(), "untranspose", n.lineno)
            s.generic_visit(n)

        def visit_keyword(s, n):
            if s.fn and isinstance(n.value, ast.Name) and n.arg and n.value.id == n.arg and n.arg not in ("name_y",):
                a = off[n.lineno - 1] + n.col_offset
                z = seg(n.value)[1]
                rest = b[z:z + 200].decode(errors="ignore")
                k = len(rest) - len(rest.lstrip())
                if rest.lstrip().startswith(","):
                    put(a, z + k + 1, "", "drop kwarg " + n.arg, n.lineno)
            s.generic_visit(n)

        def stmt(s, n):
            if s.fn:
                a, z = seg(n)
                put(a, z, "pass", "delete", n.lineno)
            s.generic_visit(n)
        visit_AugAssign = stmt

        def visit_Expr(s, n):
            if isinstance(n.value, ast.Call):
                s.stmt(n)
            elif not isinstance(n.value, ast.Constant):
                s.generic_visit(n)

    V().visit(tree)
    return src, b, out


def sh(c, t=900):
    try:
        return subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None


def main():
    outf, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or [f for f in MAP if f not in ("summary_output",)]
    rng = random.Random(seed)
    pool = []
    for f in files:
        p = "spreg/%s.py" % f
        src, b, ms = mutants(os.path.join(SRC, p))
        rng.shuffle(ms)
        pool.append((f, p, b, ms))
    # the same number from every file
    jobs, i = [], 0
    while len(jobs) < N and any(ms for *_, ms in pool):
        f, p, b, ms = pool[i % len(pool)]
        if ms:
            jobs.append((f, p, b, ms.pop()))
        i += 1
    W = 8
    for k in range(W):
        d = "/tmp/mut/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git", "docs", "notebooks"))

    free = list(range(W))

    def stage1(job):
        f, p, b, (a, z, new, what, line) = job
        k = free.pop()
        try:
            d = "/tmp/mut/w%d" % k
            t = os.path.join(d, p)
            m = b[:a] + new.encode() + b[z:]
            try:
                ast.parse(m.decode())
            except SyntaxError:
                return None
            open(t, "wb").write(m)
            r = sh("cd %s; . /opt/vp/env.sh; export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1; timeout 120 $PY -m pytest -q -x --deselect spreg/tests/test_error_sp.py::TestGMMError::test_regimes -p no:cacheprovider %s spreg 2>&1 | tail -3" % (d, " ".join("--ignore=spreg/tests/%s.py" % q for q in IGN)))
            open(t, "wb").write(b)
            return job if r and "219 passed" in r.stdout and "failed" not in r.stdout else None
        finally:
            free.append(k)
    with ThreadPoolExecutor(W) as ex:
        kept = [j for j in ex.map(stage1, jobs) if j]
    print("%d of %d mutants pass the stable tests" % (len(kept), len(jobs)), flush=True)
    d = "/tmp/mut/w0"
    with open(outf, "a") as out:
        for f, p, b, (a, z, new, what, line) in kept:
            t = os.path.join(d, p)
            open(t, "wb").write(b[:a] + new.encode() + b[z:])
            old = b[a:z].decode()
            ctx = b.decode().split("\n")[line - 1].strip()
            by, odd = None, []
            for c in MAP[f].split():
                r = sh("cd %s; SPREG_MC_GRACE=0 REPO_UNDER_TEST=%s ./run.sh %s" % (VM, d, c), 1200)
                if r is not None and r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout:
                    by = c
                    break
                if r is None or r.returncode != 0:
                    odd.append(c)
            open(t, "wb").write(b)
            rec = dict(file=p, line=line, what=what, old=old[:120], new=new[:120], ctx=ctx[:160], caught=by, odd=odd)
            out.write(json.dumps(rec) + "\n"); out.flush()
            print("%-8s %s:%d %s | %s -> %s | %s" % (by or "SURVIVED" + ("(no answer: %s)" % odd if odd else ""), p, line, what, old[:40].replace("\n", " "), new[:40].replace("\n", " "), ctx[:90]), flush=True)


main()
