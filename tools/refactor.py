#!/usr/bin/env python3
"""tools/refactor.py SPEC.py [names]: SPEC defines EDITS = {name: ([(file under crates/, old, new)], checks)}; applies each behaviour-preserving edit to /repo, checks that it
compiles and passes the tests, runs the checks (which must stay quiet) and undoes it."""
import sys, subprocess, runpy, os
R = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for name, (edits, checks) in spec["EDITS"].items():
    checks = os.environ.get("CHECKS", checks)
    if only and name not in only: continue
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    try:
        for f, old, new in edits:
            p = R + "/crates/" + f
            s = open(p).read()
            if callable(old):
                n = old(s)
                assert n != s
                open(p, "w").write(n)
                continue
            if s.count(old) != 1:
                print(name, "NOT APPLICABLE", s.count(old), old[:80])
                break
            open(p, "w").write(s.replace(old, new))
        else: old = None
        if old is not None: continue
        if os.environ.get("NOTEST") is None:
            r = sh("cd %s && CARGO_TERM_COLOR=never cargo test --offline -q --workspace 2>&1 | grep -E '^error|FAILED|^test result: F|panicked|^warning: unused|-->' | head -20" % R)
            if r.stdout.strip():
                print(name, "TESTS", r.stdout[-1500:])
                continue
        out = sh("printf '%%s\\n' %s | xargs -P 6 -I{} sh -c 'python3 %s/check.py {} > /tmp/rfc_{}.log 2>&1 || { echo {} ALARM rc=$?; grep -v \"^KNOWN\\|^VIOL\" /tmp/rfc_{}.log | cut -c1-400 | head -%s; }'" % (checks, V, os.environ.get("N", "4")))
        print(name, "quiet" if not out.stdout.strip() else out.stdout.strip())
    finally:
        sh("git -C %s checkout -q -- ." % R)
