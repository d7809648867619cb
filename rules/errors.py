"""C38, C39: error values, their localisation data and the strings shipped for them."""
import glob, os, re, sqlite3
import infra
from common import *

PV = "i18n_utility::PlaceholderValue"
LD = "i18n_utility::LocalisationData"
TRAIT = "LocalisationTrait>::localisation_data"


def const(t):
    return t.a[1] if t.op == "c" and t.a[0] == "str" else None


def pattern(s):
    """[(placeholder, keyword)] of a localisation string, or None when it is not a well-formed pattern."""
    out, i, depth, n, groups = [], 0, 0, len(s), False
    while i < n:
        c = s[i]
        if c == "`":
            j = s.find("`", i + 1)
            if j < 0: return None
            i = j + 1
        elif c == "{" and (groups or i and s[i - 1] == "#") and not depth:
            groups = True          # a named string: its text may hold patterns of its own
            m = re.match(r"\{(\w+) ", s[i:])
            if not m: return None
            depth, i = 1, i + m.end()
        elif c == "{":
            m = re.match(r"\{`[^`]*`\}|\{#? *(\w+)(?: +(\w+))?(?: [^{}`]*)?\}", s[i:])
            if not m: return None
            if m.group(1): out.append((m.group(1), m.group(2)))
            i += m.end()
        elif c == "}":
            if not depth: return None
            depth, i = 0, i + 1
            if i < n and s[i] != "{": return None
        elif c == "#" and not depth:
            if not s.startswith("{", i + 1): return None
            i += 1
        else: i += 1
    return None if depth else out


def shipped():
    """{component: (database, default language, {identifier: {language: string}})} of every database in the source tree."""
    out = {}
    for f in sorted(glob.glob(os.path.join(infra.REPO, "crates", "**", "l10n", "*.sqlite3"), recursive=True)):
        if os.sep + "tests" + os.sep in f: continue
        c = sqlite3.connect("file:%s?mode=ro&immutable=1" % f, uri=True)
        stem = os.path.basename(f)[:-8]
        try:
            dl = dict(c.execute("SELECT identifier, languageTag FROM component").fetchall())
            d = {}
            for comp, idn, tag, s in c.execute("SELECT component, identifier, languageTag, string FROM pattern"):
                d.setdefault((comp, idn), {})[tag] = s
        finally: c.close()
        out[stem] = (os.path.relpath(f, infra.REPO), dl.get(stem), {i: v for (cc, i), v in d.items() if cc == stem})
    return out


def map_entries(t):
    """[(key, value)] of a map term built by inserts from an empty map; None when it is something else."""
    out = []
    while t.op == "upd":
        if t.a[1] != "insert": return None
        out.append((t.a[3][0], t.a[3][1]))
        t = t.a[0]
    if t.op != "mapnew": return None
    seen, res = set(), []
    for k, v in out:            # the last insertion of a key wins
        if const(k) in seen: continue
        seen.add(const(k)); res.append((k, v))
    return res


TEXTS = ("String", "TaggedString", "LocalisationData", "Localised")
FITS = {None: TEXTS, "select": TEXTS, "decimal": ("Unsigned", "Integer", "Float", "FixedDecimal"),
        "plural": ("Unsigned", "Integer", "Float", "FixedDecimal"), "ordinal": ("Unsigned", "Integer", "Float", "FixedDecimal")}


def errors(ctx, cfg):
    """(function, type, engine, [(variant, path)]) of every error type that can be localised."""
    P = ctx.program(cfg)
    every = [n for n in P.bynice if n.endswith(TRAIT)]
    for n in sorted(every):
        ty = n[1:].split(" as ")[0]
        if ty not in P.adts: continue
        r = run(ctx, cfg, n, opaque=every)
        if r is None: continue
        fn, e, a, ps = r
        yield fn, ty, e, a, ps


def variant_of(P, ty, a, p):
    vs = P.adts[ty]["variants"]
    d = p.facts.get(mk("discr", a[0], ty))
    if d is None and len(vs) == 1: d = 0
    return vs[d] if d is not None else None





def c38(ctx):
    for cfg in (["full", "ext"] if ctx.tier == "quick" else ["full", "ext", "default", "sync"]):
        S = shipped()
        P = ctx.program(cfg)
        pv = [v[0] for v in P.adts[PV]["variants"]]
        seen = set()

        def data(key, where, v):
            """One LocalisationData value: its string exists in every language and gets what it refers to."""
            if not (v.op == "adt" and v.a[0] == LD):
                ctx.ob(key, v.op == "call" and str(v.a[0]).endswith("LocalisationTrait::localisation_data") or v.op == "call" and v.a[0].endswith(TRAIT), where, "%s: the localisation data %s is not that of an error" % (key, show(v)[:120]))
                return
            comp, idn, vals = v.a[2]
            c, i = const(comp), const(idn)
            if not ctx.ob(key + ":component", c in S and S[c][1] is not None, where, "%s: there is no shipped database of the component %s" % (key, c or show(comp)[:80])): return
            dflt, strings = S[c][1], S[c][2].get(i)
            seen.add((c, i))
            if not ctx.ob(key + ":string", strings is not None and dflt in strings, where, "%s: %s has no string %s in its default language %s" % (key, S[c][0], i or show(idn)[:80], dflt)): return
            given = None
            if is_some(vals):
                ent = map_entries(pay(vals))
                if not ctx.ob(key + ":values", ent is not None and all(const(k) for k, _ in ent), where, "%s: the values of %s cannot be read" % (key, i)): return
                given = {const(k): x for k, x in ent}
            elif not ctx.ob(key + ":values", is_none(vals), where, "%s: the values of %s cannot be read" % (key, i)): return
            for lang, s in sorted(strings.items()):
                if given is None:
                    ctx.ob(key + ":literal:" + lang, not re.search(r"[{}`#]", s), where, "%s: the %s string of %s is a pattern but is shown as it is, as no values are given: %s" % (key, lang, i, s))
                    continue
                ph = pattern(s)
                if not ctx.ob(key + ":pattern:" + lang, ph is not None, where, "%s: the %s string of %s is not a well-formed pattern: %s" % (key, lang, i, s)): continue
                names = [x for x, _ in ph]
                ctx.ob(key + ":once:" + lang, len(set(names)) == len(names), where, "%s: the %s string of %s uses a placeholder twice: %s" % (key, lang, i, s))
                for name, kw in ph:
                    if not ctx.ob("%s:given:%s:%s" % (key, lang, name), name in given, where, "%s: the %s string of %s needs %s, which the error does not give (it gives %s)" % (key, lang, i, name, ", ".join(sorted(given)))): continue
                    x = given[name]
                    kind = pv[x.a[1]] if x.op == "adt" and x.a[0] == PV else None
                    ctx.ob("%s:kind:%s:%s" % (key, lang, name), kind in FITS.get(kw, pv), where, "%s: %s of the %s string of %s gets a value of kind %s, which {%s%s} does not take" % (key, name, lang, i, kind, name, " " + kw if kw else ""))
            for name, x in sorted((given or {}).items()):
                if x.op == "adt" and x.a[0] == PV and pv[x.a[1]] == "LocalisationData": data(key + ":" + name, where, x.a[2][0])

        for fn, ty, e, a, ps in errors(ctx, cfg):
            got = set()
            for p in ps:
                if not ctx.ob("%s:returns" % ty, p.kind == "ret", fn.where(), "%s may not return (%s)" % (fn.nice, p.kind)): continue
                v = variant_of(P, ty, a, p)
                if not ctx.ob("%s:variant" % ty, v is not None, fn.where(), "%s: which error a path is about is not known" % fn.nice): continue
                got.add(v[0])
                data("%s::%s" % (ty.split("::")[-1], v[0]), fn.where(), p.value)
            for v in P.adts[ty]["variants"]:
                ctx.ob("%s::%s:localised" % (ty.split("::")[-1], v[0]), v[0] in got, fn.where(), "%s has no localisation data" % v[0])
        ctx.notes["strings_used"] = len(seen)


def slots(t, a, vname):
    """Payload numbers of the variant that the term is made of, in order of appearance."""
    out = []

    def go(x):
        if not isinstance(x, T): 
            if isinstance(x, tuple):
                for y in x: go(y)
            return
        if x.op == "fld" and x.a[0] is a[0]:
            m = re.search(r"@(\w+)\.(\d+)$", x.a[1])
            if m and m.group(1) == vname:
                out.append(int(m.group(2)))
                return
        for y in x.a: go(y)
    go(t)
    return out


def pieces(t):
    """A text term as a list of constant strings and other terms."""
    if t.op == "cat":
        out = []
        for x in t.a[0]: out += pieces(x)
        return out
    s = const(t)
    return [s if s is not None else t]


def shown(e, p, a):
    """What a Display implementation writes on a path, as pieces, or None when it cannot be read."""
    out = []

    def formatter(x):
        while x.op == "upd": x = x.a[0]
        return x is a[1]
    for ev in p.events:
        if ev.kind not in ("call", "rec") or not ev.args: continue
        if not any(formatter(x) for x in ev.args): continue
        rest = [x for x in ev.args if not formatter(x)]
        if len(rest) != 1: return None
        out += pieces(rest[0])
    return out


def c39(ctx):
    for cfg in (["full", "ext"] if ctx.tier == "quick" else ["full", "ext", "default", "sync"]):
        S = shipped()
        P = ctx.program(cfg)
        pv = [v[0] for v in P.adts[PV]["variants"]]
        localised = {n[1:].split(" as ")[0] for n in P.bynice if n.endswith(TRAIT)}
        order = {}

        for fn, ty, e, a, ps in errors(ctx, cfg):
            short = ty.split("::")[-1]
            flags = {}
            for p in ps:
                v = variant_of(P, ty, a, p)
                if v is None or p.kind != "ret" or p.value.op != "adt":
                    ctx.ob("%s:read" % ty, False, fn.where(), "%s: what is returned on a path is not known" % fn.nice)
                    continue
                key, where = "%s::%s" % (short, v[0]), fn.where()
                texts = []       # placeholder values of all levels

                def level(x):
                    c, i, vals = x.a[2]
                    ent = map_entries(pay(vals)) if is_some(vals) else []
                    if ent is None:
                        ctx.ob(key + ":values", False, where, "%s: the values cannot be read" % key)
                        return
                    ent = {const(k): y for k, y in ent}
                    for name, want in (("type", short), ("variant", v[0])):
                        if name not in ent: continue
                        got = const(ent[name].a[2][0]) if ent[name].op == "adt" else None
                        ctx.ob("%s:%s" % (key, name), got == want, where, "%s is named with the %s %s" % (key, name, got or show(ent[name])[:80]))
                    s = S.get(const(c), (None, None, {}))
                    s = (s[2].get(const(i)) or {}).get(s[1]) if s[1] else None
                    for n, _ in (pattern(s) or []) if s else []:
                        y = ent.get(n)
                        if n in ("type", "variant") or y is None: continue
                        y = y.a[2][0] if y.op == "adt" and y.a[0] == PV else y
                        if y.op == "adt" and y.a[0] == LD: level(y)
                        else: texts.append(y)
                level(p.value)
                n = len(v[2])
                got = [k for t in texts for k in slots(t, a, v[0])]
                bools = [k for k in range(n) if any(isinstance(f, T) and f.op == "fld" and f.a[0] is a[0] and f.a[1].endswith("@%s.%d" % (v[0], k)) for f in p.facts)]
                for k in range(n):
                    if k in bools:
                        flags.setdefault((v[0], k), []).append(tuple(map(show, texts)))
                        continue
                    ctx.ob("%s:detail:%d" % (key, k), got.count(k) == 1, where, "%s: detail %d of the error is shown %d times by its localisation" % (key, k, got.count(k)))
                order[ty, v[0]] = [k for k in got if k not in bools]
                # a wrapped error that can be localised is localised
                for k, f in enumerate(v[2]):
                    inner = [t for t in texts if k in slots(t, a, v[0])]
                    for t in inner:
                        if t.op == "call" and t.a[0] == "to_string":
                            w = re.sub(r"^(&|alloc::(Box|Rc|Arc)<)+", "", show(t.a[1][-1]).removeprefix("ty(")).split(",")[0].rstrip(")>")
                            ctx.ob("%s:wrapped:%d" % (key, k), w not in localised, where, "%s: the wrapped %s is shown in its own words although it can be localised" % (key, w))
            for (vn, k), xs in flags.items():
                ctx.ob("%s::%s:detail:%d" % (short, vn, k), len(xs) == len(set(xs)) > 1, fn.where(), "%s::%s: detail %d of the error makes no difference to its localisation" % (short, vn, k))

        for n in sorted(P.bynice):
            m = re.match(r"<(.*) as Display>::fmt$", n)
            if not m or m.group(1) not in localised: continue
            ty = m.group(1)
            short = ty.split("::")[-1]
            r = run(ctx, cfg, n, opaque=[x for x in P.bynice if x.endswith(" as Display>::fmt")])
            if r is None: continue
            fn, e, a, ps = r
            got, flags = set(), {}
            for p in ps:
                v = variant_of(P, ty, a, p)
                w = shown(e, p, a)
                if v is None or p.kind != "ret" or w is None:
                    ctx.ob("%s:shown" % ty, False, fn.where(), "%s: what is written on a path is not known" % fn.nice)
                    continue
                if is_err(p.value) or any(k.op == "discr" and p.facts[k] == 1 and k.a[0].op == "call" for k in p.facts if isinstance(k, T)): continue
                got.add(v[0])
                key, where = "%s::%s" % (short, v[0]), fn.where()
                m2 = re.match(r"(\w+)::(\w+): ", w[0]) if w and isinstance(w[0], str) else None
                ctx.ob(key + ":message", any(isinstance(x, str) and len(x) > 8 or not isinstance(x, str) for x in w), where, "%s: nothing is written" % key)
                if m2: ctx.ob(key + ":prefix", (m2.group(1), m2.group(2)) == (short, v[0]), where, "%s is displayed as %s::%s" % (key, m2.group(1), m2.group(2)))
                seq = [k for x in w if not isinstance(x, str) for k in slots(x, a, v[0])]
                bools = [k for k in range(len(v[2])) if any(isinstance(f, T) and f.op == "fld" and f.a[0] is a[0] and f.a[1].endswith("@%s.%d" % (v[0], k)) for f in p.facts)]
                for k in range(len(v[2])):
                    if k in bools:
                        flags.setdefault((v[0], k), []).append(tuple(x if isinstance(x, str) else show(x) for x in w))
                        continue
                    ctx.ob("%s:display:%d" % (key, k), seq.count(k) == 1, where, "%s: detail %d of the error is displayed %d times" % (key, k, seq.count(k)))
                seq = [k for k in seq if k not in bools]
                o = order.get((ty, v[0]))
                if o is not None and sorted(o) == sorted(seq):
                    ctx.ob(key + ":places", o == seq, where, "%s: the details are displayed in the order %s but localised in the order %s: they stand in each other's place" % (key, seq, o))
            for (vn, k), xs in flags.items():
                ctx.ob("%s::%s:display:%d" % (short, vn, k), len(xs) == len(set(xs)) > 1, fn.where(), "%s::%s: detail %d of the error makes no difference to what is displayed" % (short, vn, k))
            for v in P.adts[ty]["variants"]:
                ctx.ob("%s::%s:displayed" % (short, v[0]), v[0] in got, fn.where(), "%s::%s is never displayed" % (short, v[0]))

        # details that are one of several names are written as that name
        for n in sorted(P.bynice):
            m = re.match(r"<(i18n_.*) as Display>::fmt$", n)
            if not m or m.group(1) in localised or m.group(1) not in P.adts: continue
            ty = m.group(1)
            vs = P.adts[ty]["variants"]
            if len(vs) < 2 or any(v[2] for v in vs): continue
            r = run(ctx, cfg, n)
            if r is None: continue
            fn, e, a, ps = r
            for p in ps:
                v = variant_of(P, ty, a, p)
                w = shown(e, p, a)
                # the derived Debug writes the name
                if w and len(w) == 1 and not isinstance(w[0], str) and w[0].op == "to_string" and w[0].a[:2] == ("new_debug", a[0]) and any(f.derived for f in P.bynice.get("<%s as Debug>::fmt" % ty, ())): continue
                if p.kind != "ret" or v is None or w is None or not all(isinstance(x, str) for x in w):
                    ctx.ob("%s:name" % ty, False, fn.where(), "%s: what is written on a path is not known" % fn.nice)
                    continue
                ctx.ob("%s::%s:name" % (ty, v[0]), "".join(w) == v[0], fn.where(), "%s::%s is written as %s" % (ty.split("::")[-1], v[0], "".join(w)))

        for n in sorted(P.bynice):
            m = re.match(r"<(.*) as From<(.*)>>::from$", n)
            if not m or m.group(1) not in localised: continue
            r = run(ctx, cfg, n)
            if r is None: continue
            fn, e, a, ps = r
            for p in ps:
                ok = p.kind == "ret" and p.value.op == "adt" and p.value.a[0] == m.group(1) and len(p.value.a[2]) == 1 and p.value.a[2][0] is a[0]
                ctx.ob("from:%s:%s" % (m.group(1), m.group(2)), ok, fn.where(), "%s turned into %s is not that error wrapped: %s" % (m.group(2), m.group(1), show(p.value)[:120] if p.value is not None else p.kind))
