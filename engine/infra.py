"""Rebuilds the MIR dumps from /repo's working tree, runs a rule, writes evidence."""
import contextlib, fcntl, traceback
import hashlib, json, os, subprocess, sys, time, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "driver", "target", "debug", "mirdump")
R = "i18n-rizzen-yazston/"
CONFIGS = {
    "default": [],
    "full": ["--features", R + "icu_compiled_data," + R + "logging"],
    "icu": ["--features", R + "icu_compiled_data"],
    "ext": ["--features", R + "icu_compiled_data," + R + "icu_extended"],
    "log": ["--features", R + "logging"],
    "synclog": ["--features", R + "icu_compiled_data," + R + "sync," + R + "logging"],
    "sync": ["--features", R + "icu_compiled_data," + R + "sync"],
}
TOOLCHAIN = "+nightly"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    sysroot = subprocess.run(["rustc", TOOLCHAIN, "--print", "sysroot"], capture_output=True, text=True, env=e).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def build_driver():
    e = env()
    r = subprocess.run(["cargo", TOOLCHAIN, "build", "--offline"], cwd=os.path.join(VERIF, "driver"), env=e,
                       capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(DRIVER):
        raise BuildError("driver build failed:\n" + r.stderr[-3000:])


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            if f.endswith((".rs", ".toml", ".sql", ".sqlite3", ".lock", ".asciidoc")):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in source_files() + [os.path.join(VERIF, "driver", "src", "main.rs")]:
        h.update(p.encode())
        h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


@contextlib.contextmanager
def build_lock():
    """One build at a time."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        yield


def ensure_dump(cfg):
    """Dump directory for configuration cfg, rebuilt unless it is for exactly this tree."""
    d = os.path.join(BUILD, "dump", cfg)
    stamp = os.path.join(d, ".hash")
    want = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == want: return d
    with build_lock():
        if os.path.exists(stamp) and open(stamp).read() == want: return d
        return make_dump(cfg, d, stamp, want)


def make_dump(cfg, d, stamp, want):
    if not os.path.exists(DRIVER): build_driver()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tgt = os.path.join(BUILD, "target")
    for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "i18n*")) + glob.glob(os.path.join(tgt, "debug", "build", "i18n*")):
        shutil.rmtree(p, ignore_errors=True)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    e = env()
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["MIRDUMP_OUT"] = d
    e["CARGO_TARGET_DIR"] = tgt
    need = {"i18n_utility", "i18n_lexer", "i18n_provider", "i18n_provider_sqlite3", "i18n_localiser"}
    for attempt in (0, 1):
        r = subprocess.run(["cargo", TOOLCHAIN, "check", "--offline", "--workspace"] + CONFIGS[cfg], cwd=REPO, env=e,
                           capture_output=True, text=True)
        if r.returncode == 0:
            have = {os.path.basename(x)[:-5] for x in glob.glob(d + "/*.json")}
            if need <= have: break
        if attempt == 0: shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0:
        raise BuildError("cargo check (%s) failed:\n%s" % (cfg, r.stderr[-3000:]))
    if not need <= have: raise BuildError("missing dumps for %s: %s" % (cfg, need - have))
    open(stamp, "w").write(want)
    return d


class Ob:
    __slots__ = ("key", "ok", "where", "msg")


class Ctx:
    def __init__(s, pid, tier):
        s.pid = pid
        s.tier = tier
        s.obs = []
        s.analysed = set()
        s.paths = 0
        s.steps = 0
        s._prog = {}
        s.notes = {}
        s.samples = []
        s.unmodelled = {}

    def program(s, cfg):
        from program import Program
        if cfg not in s._prog:
            s._prog[cfg] = Program(ensure_dump(cfg))
        return s._prog[cfg]

    def ob(s, key, ok, where="", msg=""):
        o = Ob()
        o.key = key
        o.ok = bool(ok)
        o.where = where
        o.msg = msg
        s.obs.append(o)
        if ok and len(s.samples) < 12 and not any(x["key"].split(":")[0] == key.split(":")[0] for x in s.samples):
            s.samples.append({"key": key, "where": where, "msg": msg[:300]})
        return ok

    def used(s, eng, paths):
        """Record what an engine run covered."""
        for k in eng.analysed:
            f = eng.P.fns[k]
            if f.kind == "fn": s.analysed.add(f.nice)
        s.paths += len(paths)
        s.steps += eng.steps
        for k, v in eng.unmodelled.items(): s.unmodelled[k] = s.unmodelled.get(k, 0) + v


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))


def main(pid, rule, rule_text, assumptions, floor):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(pid, tier)
    try:
        rule(ctx)
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    except Exception as e:      # code the rule cannot read is not shown to be right
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.ob("analysis", False, "", "the analysis could not be completed: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    bad = {}
    for o in ctx.obs:
        if not o.ok: bad.setdefault(o.key, o)
    if len(ctx.obs) < floor:
        class O: pass
        o = Ob(); o.key = "coverage"; o.ok = False; o.where = ""
        o.msg = "only %d rule instances found, expected at least %d" % (len(ctx.obs), floor)
        bad["coverage"] = o
    known = {}
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == pid: known[k["key"]] = k
    viol = []
    for key, o in bad.items():
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
        else:
            viol.append(o)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule_text,
            "obligations": len(ctx.obs), "discharged": sum(1 for o in ctx.obs if o.ok),
            "functions_analysed": len(ctx.analysed), "functions": sorted(ctx.analysed)[:80],
            "abstract_paths": ctx.paths, "abstract_steps": ctx.steps,
            "configurations": sorted(ctx._prog), "samples": ctx.samples,
            "unmodelled_externals": dict(sorted(ctx.unmodelled.items(), key=lambda x: -x[1])[:40]),
            **ctx.notes,
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d rule instances, %d discharged, %d functions, %d abstract paths, %.1fs" % (
        pid, len(ctx.obs), ev["coverage"]["discharged"], len(ctx.analysed), ctx.paths, time.time() - t0))
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in viol: f.write("%s\n  rule instance: %s\n  at: %s\n\n" % (o.msg, o.key, o.where))
        for o in viol[:20]:
            print("  %s: [%s] %s" % (o.where, o.key, o.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
