#!/usr/bin/env python3
"""tools/seed.py keep <id> <prop> <needs> <breaks> : store /repo's current diff as planted bug <id> (demo main.rs given in $DEMO) and verify it
   tools/seed.py verify <id>...        : re-verify stored bugs (build, tests, demo both ways, which checks catch it)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds main.rs (beside this file) against /repo's crates in a scratch directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.toml.in" "$tmp/Cargo.toml"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$tmp/Cargo.lock"
cd "$tmp"
tgt="$tmp/target"
if [ -d /repo/target ]; then tgt=/repo/target; rm -rf /repo/target/debug/.fingerprint/i18n* /repo/target/debug/.fingerprint/demo*; fi
CARGO_TARGET_DIR="$tgt" CARGO_INCREMENTAL=0 timeout 280 cargo run -q --offline 2>"$tmp/err"
rc=$?
[ $rc -ne 0 ] && tail -20 "$tmp/err"
exit $rc
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%s
'''
DEPS = {
    "utility": 'i18n_utility-rizzen-yazston = { path = "/repo/crates/utility"%s }',
    "lexer": 'i18n_lexer-rizzen-yazston = { path = "/repo/crates/lexer"%s }',
    "provider": 'i18n_provider-rizzen-yazston = { path = "/repo/crates/provider/core"%s }',
    "sqlite": 'i18n_provider_sqlite3-rizzen-yazston = { path = "/repo/crates/provider/sqlite3"%s }',
    "rusqlite": 'rusqlite = { version = "*", features = ["bundled"] }%.0s',
    "localiser": 'i18n_localiser-rizzen-yazston = { path = "/repo/crates/localiser"%s }',
}


def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean(): return sh("git -C /repo status --porcelain").stdout.strip() == ""


def revert(): sh("git -C /repo checkout -- .")


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED " + b.stderr[-1500:]
    sh("bash /opt/vp/test.sh /tmp/out.json")
    o = json.load(open("/tmp/out.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(o.get("passed", o.get("pass", [])))
    miss = base - passed
    return "" if not miss else "TESTS FAIL %s" % sorted(miss)[:5]


def verify(i, checks=None):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    assert clean(), "repo dirty"
    if "nodemo" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr)
        return
    try:
        t = ""
        if "nodemo" not in sys.argv:
            t = tests()
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            print(i, "clean demo rc=%d%s" % (r0.returncode, "" if r0.returncode == 0 else " !!! " + r0.stdout[-1500:]), "| tests", t or "ok", "| bug demo rc=%d %s" % (r1.returncode, r1.stdout[-160:].replace("\n", " ")), flush=True)
        for c in (checks or [meta["property"]]):
            x = sh("python3 %s/check.py %s" % (V, c))
            caught = x.returncode == 1 and "VIOLATION property=" + c in x.stdout
            print("   ", i, c, "CAUGHT" if caught else "MISSED rc=%d" % x.returncode, (x.stdout.split("\n")[1][:230] if caught else x.stdout[-300:] + x.stderr[-300:]), flush=True)
    finally:
        revert()


if __name__ == "__main__":
    if sys.argv[1] == "keep":
        i, prop, needs, breaks, deps, main = sys.argv[2:8]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        dl = []
        for x in deps.split(","):
            if x in ("anyhow",): continue
            n, *f = x.split("+")
            if n in DEPS: dl.append(DEPS[n] % (', features = [%s]' % ", ".join('"%s"' % y for y in f) if f else ""))
            else: dl.append(x)
        open(d + "/Cargo.toml.in", "w").write(TOML % "\n".join(dl))
        shutil.copy(main, d + "/main.rs")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        revert()
        verify(i)
    else:
        ids = [x for x in sys.argv[2:] if x != "nodemo" and not x.startswith("C")] or sorted(os.listdir(V + "/seeded"))
        cs = [x for x in sys.argv[2:] if x.startswith("C")]
        for i in ids: verify(i, cs or None)
