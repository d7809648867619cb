"""Optional features: every condition on them can hold and can fail, every selection of them builds, and they reach every part of the library."""
import glob, itertools, json, os, re, subprocess, sys
import infra

KNOWN = {"debug_assertions", "doc", "doctest", "test", "miri", "panic", "proc_macro", "sanitize", "unix", "windows", "overflow_checks", "relocation_model", "ub_checks", "fmt_debug",
         "clippy", "rustfmt"}
TOKEN = re.compile(r"""\s+|//[^\n]*|(?P<block>/\*)|b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<str>(?:[^"\\]|\\.)*)"|b?'(?:[^'\\]|\\(?:u\{[^}]*\}|x..|.))'|'\w+|(?P<id>\w+)|(?P<p>.)""", re.S)


def tokens(text):
    """[(kind, text, line)] of identifiers, strings and punctuation."""
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOKEN.match(text, i)
        j = m.end()
        if m.group("block"):
            depth = 1
            while depth and j < len(text):
                if text.startswith("/*", j): depth, j = depth + 1, j + 2
                elif text.startswith("*/", j): depth, j = depth - 1, j + 2
                else: j += 1
        elif m.group("id") is not None: out.append(("id", m.group("id"), line))
        elif m.group("str") is not None: out.append(("str", m.group("str"), line))
        elif m.group("raw") is not None: out.append(("str", m.group("raw"), line))
        elif m.group("p") is not None: out.append(("p", m.group("p"), line))
        line += text.count("\n", i, j)
        i = j
    return out


def predicate(ts, i):
    """A predicate from token i: (tree, next)."""
    name = ts[i][1]
    if i + 1 < len(ts) and ts[i + 1][1] == "(" and name in ("all", "any", "not"):
        args, i = [], i + 2
        while ts[i][1] != ")" or ts[i][0] != "p":
            if ts[i][:2] == ("p", ","): i += 1; continue
            a, i = predicate(ts, i)
            args.append(a)
        return (name, tuple(args)), i + 1
    if i + 2 < len(ts) and ts[i + 1][1] == "=" and ts[i + 2][0] == "str": return ("atom", name, ts[i + 2][1]), i + 3
    return ("atom", name, None), i + 1


def conditions(text):
    """[(predicate, line, enclosing function)] of every conditional part."""
    ts, out, fn = tokens(text), [], "the top of the file"
    for i, (k, w, line) in enumerate(ts):
        if k != "id": continue
        if w == "fn" and i + 1 < len(ts) and ts[i + 1][0] == "id": fn = ts[i + 1][1]
        j = None
        if w in ("cfg", "cfg_attr") and i + 1 < len(ts) and ts[i + 1][:2] == ("p", "(") and i and ts[i - 1][:2] == ("p", "["): j = i + 2
        if w == "cfg" and i + 2 < len(ts) and ts[i + 1][:2] == ("p", "!") and ts[i + 2][:2] == ("p", "("): j = i + 3
        if j is None: continue
        # an attribute belongs to the item that follows it
        name = fn
        for a, b in zip(ts[j:j + 60], ts[j + 1:j + 61]):
            if a[:2] == ("id", "fn"): name = b[1]; break
            if a[1] in ("{", ";", "}") and a[0] == "p": break
        out.append((predicate(ts, j)[0], line, name))
    return out


def atoms(p):
    return {p} if p[0] == "atom" else {x for a in p[1] for x in atoms(a)}


def holds(p, env):
    if p[0] == "atom": return env.get(p, False)
    if p[0] == "not": return not holds(p[1][0], env)
    return (all if p[0] == "all" else any)(holds(a, env) for a in p[1])


def can(a, features):
    """Whether the atom can be switched on."""
    if a[1] == "feature": return a[2] in features
    return a[1] in KNOWN or a[1].startswith("target_")


def metadata():
    r = subprocess.run(["cargo", infra.TOOLCHAIN, "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=infra.REPO, env=infra.env(), capture_output=True, text=True)
    if r.returncode: raise infra.BuildError("cargo metadata failed:\n" + r.stderr[-2000:])
    return {p["name"]: p for p in json.loads(r.stdout)["packages"]}


def short(n): return n.replace("-rizzen-yazston", "")


def activated(pk, name, feature):
    """{(package, feature)} of the workspace that switching on a feature of a package switches on."""
    done, todo = set(), [(name, feature)]
    while todo:
        p, f = todo.pop()
        if (p, f) in done or p not in pk or f not in pk[p]["features"]: continue
        done.add((p, f))
        for x in pk[p]["features"][f]:
            m = re.match(r"^(?:dep:)?([^/?]+)\??(?:/(.+))?$", x)
            if not m.group(2): todo.append((p, m.group(1)))
            else: todo += [(d["name"], m.group(2)) for d in pk[p]["dependencies"] if (d["rename"] or d["name"]) == m.group(1)]
    return done


def requires(pk, name):
    """The packages of the workspace that a package is built with."""
    done, todo = set(), [name]
    while todo:
        p = todo.pop()
        if p in done or p not in pk: continue
        done.add(p)
        todo += [d["name"] for d in pk[p]["dependencies"] if d["kind"] is None]
    return done


def selections(pk, quick):
    for name, p in sorted(pk.items()):
        fs = sorted(f for f in p["features"] if f != "default")
        sets = [[], *([f] for f in fs)]
        if not quick: sets += map(list, itertools.combinations(fs, 2))
        sets += [x for n in {len(fs) - 1, len(fs)} if n > 1 for x in map(list, itertools.combinations(fs, n))]
        for plain in ([[], ["--no-default-features"]] if "default" in p["features"] else [[]]):
            for s in sets: yield name, plain, s


def c43(ctx):
    pk = metadata()
    tested = {}
    count = 0
    for name, p in sorted(pk.items()):
        d = os.path.dirname(p["manifest_path"])
        for path in sorted(glob.glob(d + "/src/**/*.rs", recursive=True)):
            if any(path.startswith(os.path.dirname(q["manifest_path"]) + "/") and len(os.path.dirname(q["manifest_path"])) > len(d) for q in pk.values()): continue
            rel = os.path.relpath(path, infra.REPO)
            for n, (pred, line, fn) in enumerate(conditions(open(path).read())):
                count += 1
                ats = atoms(pred)
                for a in ats:
                    if a[1] == "feature": tested.setdefault(a[2], set()).add(name)
                off = sorted(a for a in ats if not can(a, p["features"]))
                on = sorted((a for a in ats if a not in off), key=str)
                values = {holds(pred, dict(zip(on, v))) for v in itertools.product((False, True), repeat=len(on))}
                where = "%s:%d" % (rel, line)
                if not off or len(values) > 1:
                    ctx.ob("condition:%s:%d" % (rel, n), True, where)
                    continue
                for a in off:
                    what = "feature %s" % a[2] if a[1] == "feature" else "cfg %s" % a[1]
                    ctx.ob("never:%s:%s" % (short(name), a[2] or a[1]), False, where, "the condition in %s on the %s, which %s does not have, %s" % (
                        fn, what, short(name), "always holds" if values == {True} else "never holds: what it switches is in no build"))
    ctx.notes["conditions"] = count
    # a feature that is switched on reaches the parts that are written differently with it
    for name, p in sorted(pk.items()):
        for f in p["features"]:
            if f == "default": continue
            got = activated(pk, name, f)
            for d in sorted(requires(pk, name)):
                if f in pk[d]["features"] and (d in tested.get(f, ()) or any(q in tested.get(f, ()) for q, g in activated(pk, d, f) if g == f)):
                    wanted = {(q, g) for q, g in activated(pk, d, f) if q in tested.get(g, ())}
                    ctx.ob("reach:%s:%s:%s" % (short(name), f, short(d)), wanted <= got, os.path.relpath(p["manifest_path"], infra.REPO),
                           "the feature %s of %s leaves %s off in %s" % (f, short(name), ", ".join(sorted({g for q, g in wanted - got})), ", ".join(sorted({short(q) for q, g in wanted - got}))))
    # every selection is type-checked
    seen = {}
    built = []
    quick = ctx.tier == "quick"
    e = infra.env()
    e["CARGO_TARGET_DIR"] = os.path.join(infra.BUILD, "target-features")
    with infra.build_lock():
        for name, plain, fs in selections(pk, quick):
            label = "%s%s with %s" % (short(name), " without the default features" if plain else "", ", ".join(fs) or "no further feature")
            r = subprocess.run(["cargo", infra.TOOLCHAIN, "check", "--offline", "-q", "--message-format=json", "-p", name] + plain + (["--features", ",".join(fs)] if fs else []),
                               cwd=infra.REPO, env=e, capture_output=True, text=True)
            built.append(label)
            ctx.ob("build:%s:%s:%s" % (short(name), bool(plain), ",".join(fs)), True, "")
            if r.returncode == 0: continue
            errors = []
            for l in r.stdout.splitlines():
                m = json.loads(l) if l.startswith("{") else {}
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or not m["message"]["spans"]: continue
                sp = next((x for x in m["message"]["spans"] if x["is_primary"]), m["message"]["spans"][0])
                errors.append(("fails:%s:%s" % (m["target"]["name"], re.sub(r" in the current scope$", "", m["message"]["message"])), "%s:%d" % (sp["file_name"], sp["line_start"]), m["message"]["message"]))
            if not errors: errors = [("fails:%s" % short(name), os.path.relpath(pk[name]["manifest_path"], infra.REPO), r.stderr.strip()[-300:])]
            for k, w, m in errors: seen.setdefault(k, (w, m, []))[2].append(label)
    for k, (w, m, labels) in sorted(seen.items()): ctx.ob(k, False, w, "%s: %s%s" % (m, labels[0], " (and %d other selections)" % (len(labels) - 1) if len(labels) > 1 else ""))
    ctx.notes["selections"] = built
