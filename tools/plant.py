#!/usr/bin/env python3
"""tools/plant.py SPEC.py: SPEC defines SEEDS = [(id, prop, needs, breaks, deps, [(file, old, new)], prelude, body)]; plants, keeps and verifies each."""
import sys, subprocess, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for i, prop, needs, breaks, deps, edits, prelude, body in spec["SEEDS"]:
    if only and i not in only: continue
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip() == ""
    for f, old, new in edits:
        p = "/repo/crates/" + f
        s = open(p).read()
        assert s.count(old) >= 1, (i, f, old)
        assert s.count(old) == 1, ("ambiguous", i, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    main = "/tmp/plant_main.rs"
    open(main, "w").write((open(V + "/tools/" + prelude).read() if prelude else "") + body)
    subprocess.run([sys.executable, V + "/tools/seed.py", "keep", i, prop, needs, breaks, deps, main])
