#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(props.P + props.NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": p["technique"], "level": "other", "level_note": props.LEVEL + " Rule: " + p["rule"]} for p in props.P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA],
     "notes": "All checks are static: they decide from the MIR (and, where said, the SQL schema and pattern databases) of /repo's working tree. No code of /repo is executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(props.P), "checks,", len(props.NA), "not applicable")

# DESIGN.md
import glob, re
kf = json.load(open(os.path.join(here, "known_findings.json")))
seeds = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
o = [open(os.path.join(here, "design.head.md")).read(), "## Per property\n"]
for p in props.P:
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append(p["statement"] + "\n")
    o.append("* *Quantified over*: %s. *Tests*: %s." % (p["qtext"], p["why"]))
    o.append("* *Decided by*: %s (`rules/%s.py` `%s`)." % (p["technique"], p["mod"], p["fn"]))
    o.append("* *Rule*: " + p["rule"])
    if len(p["assumptions"]) > 2: o.append("* *Assumes*: " + "; ".join(p["assumptions"][2:]) + ".")
    if p["id"] in seeds: o.append("* *Planted bugs*: " + ", ".join("`%s`" % n for n, _ in seeds[p["id"]]) + ".")
    o.append("")
o.append("## Planted bugs and the checks that catch them\n\nAll are caught by the check of their property (`tools/seed.py verify`).\n\n| bug | property | needs | breaks |\n|---|---|---|---|")
for pid in sorted(seeds):
    for n, d in seeds[pid]: o.append("| %s | %s | %s | %s |" % (n, pid, d["needs"], d["what_it_breaks"]))
o.append("\n## Genuine defects\n\nRepaired (`fix:` commits in /repo; a fixed entry suppresses nothing):\n")
for k in kf:
    if k["status"] == "fixed": o.append("* " + k["what"])
o.append("\nRecorded as known findings (repair would change public trait bounds or documented data):\n")
for k in kf:
    if k["status"] == "known": o.append("* %s `%s`: %s" % (k["property"], k["key"], k["what"]))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o) + "\n")
