#!/usr/bin/env python3
"""Development aid: python3 tools/plant.py SPEC.py  (SPEC defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)])
Creates /verif/seeded/<id>/ and confirms: demo passes on the clean tree, fails with the patch, stable tests pass with it,
and reports whether the check of the property catches it. Works on /repo's working tree and restores it."""
import json, os, re, subprocess, sys
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/plant_t.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = open("/tmp/plant_t.json").read()
    d = json.loads(res)
    st = base.get("stable") or base.get("passed") or base.get("tests") or base
    names = st if isinstance(st, list) else list(st)
    passed = d.get("passed") if isinstance(d.get("passed"), list) else [k for k, v in d.get("tests", d).items() if v in ("passed", "pass", True)]
    return sorted(set(names) - set(passed))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert sh("git -C /repo status --short").stdout == "", "dirty /repo"
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w", newline="").write(s.replace(old, new))
            open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
            sh("git -C /repo checkout -- .")
            open(d + "/demo.py", "w").write(b["demo"].lstrip())
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = /repo\nPYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            json.dump({"property": b["property"], "needs": " ".join(b["needs"].split()), "what_it_breaks": " ".join(b["breaks"].split())}, open(d + "/meta.json", "w"), indent=1)
            c = sh("bash %s/demo.sh" % d, cwd=R)
            sh("git -C /repo apply %s/patch.diff" % d)
            m = sh("bash %s/demo.sh" % d, cwd=R)
            miss = tests()
            k = sh("%s/run.sh %s --tier quick" % (V, b["property"]), cwd=V)
            caught = k.returncode == 1 and ("VIOLATION property=%s " % b["property"]) in k.stdout
            print(b["id"], b["property"], "clean=%d" % c.returncode, "patched=%d" % m.returncode, "tests_lost=%d" % len(miss), "CAUGHT" if caught else "MISSED rc=%d" % k.returncode, flush=True)
            if c.returncode:
                print(c.stdout[-800:], c.stderr[-800:])
            if not m.returncode or "Traceback" in m.stderr and "AssertionError" not in m.stderr:
                print("   demo:", m.stdout[-300:], m.stderr[-600:])
            if miss:
                print("   ", miss[:4])
        finally:
            sh("git -C /repo checkout -- .")


main()
