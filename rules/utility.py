"""Rules for crates/utility."""
from common import *

REG = "i18n_utility::LanguageTagRegistry"
TAG = "i18n_utility::LanguageTag"
CANON = "icu_locid::LanguageIdentifier::canonicalize"
PARSE = ("icu_locid::LanguageIdentifier::try_from_bytes", "<icu_locid::LanguageIdentifier as FromStr>::from_str")


def canon(s): return mk("call", CANON, (s,), None)
def canon_ok(s): return mk("fld", canon(s), OK0)


def listing(ctx, cfg, meth):
    """[(map base, ...)] whose values the listing method returns, one element per stored value."""
    r = run(ctx, cfg, REG + "::" + meth)
    if r is None: return None
    fn, e, a, ps = r
    srcs = None
    for p in ps:
        if p.kind == "loop": continue
        if p.kind != "ret":
            ctx.ob("%s:%s:panic" % (cfg, meth), False, fn.where(), "%s can panic: %s" % (meth, p.info[0]))
            continue
        d = vec_desc(ps, p.value)
        good = all(x[0] == "each" and x[4] and x[2] in ("values", "iter", "into_values", "into_iter") for x in d)
        if good:
            for x in d:
                el = x[3]
                # the element itself or, for iteration over pairs, its value part
                if el is not None and not (el.op == "elem" or (el.op == "fld" and el.a[0].op == "elem" and el.a[1].endswith(".1"))): good = False
                if el is not None and x[2] in ("iter", "into_iter") and el.op == "elem": good = False
        ctx.ob("%s:%s:complete" % (cfg, meth), good, fn.where(),
               "%s must return every stored tag exactly once, unfiltered; built as %s" % (meth, d))
        s = [mapbase(x[1]) for x in d if x[0] == "each"]
        if srcs is None: srcs = s
        elif set(srcs) != set(s) or len(srcs) != len(s): ctx.ob("%s:%s:same" % (cfg, meth), False, fn.where(), "sources differ between paths")
    return srcs


def registry_maps(ctx, cfg):
    a = listing(ctx, cfg, "list")
    b = listing(ctx, cfg, "list_deprecated")
    if not a or not b or len(a) != 1 or len(b) != 1 or a[0] is b[0]:
        ctx.ob("%s:maps" % cfg, False, "crates/utility/src/language.rs",
               "the canonical and the deprecated store are not two separate single collections: %s / %s" % (a, b))
        return None
    return a[0], b[0]


def self_for(t, old, new):
    return t


def rebase(t, frm, to):
    """Replace subterm frm by to."""
    if t is frm: return to
    if not isinstance(t, T): return tuple(rebase(x, frm, to) for x in t) if isinstance(t, tuple) else t
    a = tuple(rebase(x, frm, to) if isinstance(x, (T, tuple)) else x for x in t.a)
    return t if a == t.a else mk(t.op, *a)


def tag_roots(ctx, cfg):
    P = ctx.program(cfg)
    return [f for f in pub_roots(P, "i18n_utility::") if not f.derived]


def get_of(t):
    """(map base, key) if t is the payload of a successful lookup."""
    if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get":
        return mapbase(t.a[0].a[1][0]), t.a[0].a[1][1]
    return None


def c01(ctx):
    for cfg in ("default", "sync"):
        P = ctx.program(cfg)
        mm = registry_maps(ctx, cfg)
        if mm is None: continue
        can, dep = mm
        r = run(ctx, cfg, REG + "::tag")
        if r is None: continue
        fn, e, a, ps = r
        # the registry maps as seen from tag()'s own self argument
        selfs = [x for x in subterms(can) if x.op == "arg"]
        for x in selfs: can, dep = rebase(can, x, a[0]), rebase(dep, x, a[0])
        s = a[1]

        def canonical_value(p, v):
            if v.op == "adt" and v.a[0] == TAG: return same(p, pay(v), canon_ok(s))
            g = get_of(v)
            if g is None: return False
            m, k = g
            if m is can: return same(p, k, s) or same(p, k, canon_ok(s))
            if m is dep: return same(p, k, s)
            return False

        nret = 0
        for p in ps:
            if p.kind == "loop": continue
            if p.kind == "panic":
                ctx.ob("%s:tag:panic@%s" % (cfg, p.info[2].nice), False, p.info[2].where(p.info[3]), "tag() can panic: %s" % p.info[0])
                continue
            nret += 1
            k, v = split_result(p)
            if k == "ok":
                ctx.ob("%s:tag:canonical" % cfg, canonical_value(p, v), fn.where(),
                       "a tag handed out must be the canonical form of the requested text; got %s" % show(v))
                d = p.facts.get(mk("discr", canon(s), RES))
                ctx.ob("%s:tag:valid" % cfg, d != 1, fn.where(), "a tag is handed out although canonicalisation failed")
                if v.op == "adt":
                    ins = [x for x in calls(p, "std::HashMap::insert") if mapbase(x.args[0]) is can and same(p, x.args[1], canon_ok(s))]
                    ctx.ob("%s:tag:recorded" % cfg, bool(ins), fn.where(),
                           "a newly created tag must be stored under its canonical text so later requests agree")
            elif k == "err":
                d = p.facts.get(mk("discr", canon(s), RES))
                ctx.ob("%s:tag:err" % cfg, d == 1 and contains(v, mk("fld", canon(s), ERR0)), fn.where(),
                       "tag() must fail exactly when canonicalisation of the text fails, carrying that error; got %s" % show(v))
            else:
                ctx.ob("%s:tag:result" % cfg, False, fn.where(), "unrecognised result %s" % show(v))
        ctx.ob("%s:tag:both" % cfg, nret > 0, fn.where(), "no returning path")
        # invariant: every write to the stores, from any public function of the crate
        for f in tag_roots(ctx, cfg):
            if f is fn: rr = r
            else: rr = run(ctx, cfg, f)
            if rr is None: continue
            f, e2, a2, ps2 = rr
            for p in ps2:
                for ev in p.events:
                    if ev.kind != "call" or not ev.args: continue
                    if not ev.name.startswith("std::HashMap::"): continue
                    mb = mapbase(ev.args[0])
                    which = None
                    if mb is can: which = "can"
                    elif mb is dep: which = "dep"
                    else:
                        for x in [y for y in subterms(mb) if y.op == "arg"]:
                            if mb is rebase(can, a[0], x): which = "can"
                            if mb is rebase(dep, a[0], x): which = "dep"
                    if which is None: continue
                    op = ev.name.split("::")[-1]
                    if op == "insert":
                        k, v = ev.args[1], ev.args[2]
                        good = False
                        if f is fn:
                            if which == "can":
                                good = same(p, k, canon_ok(s)) and canonical_value(p, v)
                            else:
                                good = same(p, k, s) and canonical_value(p, v)
                        ctx.ob("%s:%s:insert-%s" % (cfg, f.nice, which), good, ev.where(),
                               "every entry must map a spelling to its canonical tag: insert(%s, %s)" % (show(k), show(v)))


def c02(ctx):
    """Listings: single-threaded configuration."""
    cfg = "default"
    P = ctx.program(cfg)
    mm = registry_maps(ctx, cfg)
    if mm is None: return
    can, dep = mm
    la = listing(ctx, cfg, "list_all")
    ctx.ob("list_all", la is not None and len(la) == 2 and set(la) == {can, dep}, "crates/utility/src/language.rs",
           "list_all must return the canonical and the deprecated entries, each once: %s" % la)
    for f in tag_roots(ctx, cfg):
        r = run(ctx, cfg, f)
        if r is None: continue
        fn, e, a, ps = r
        if fn.argc == 0:
            if fn.nice == REG + "::new":
                for p in ps:
                    ok_ = p.kind == "ret" and p.value.op == "adt" and all(x.op == "cell" and x.a[1].op in ("mapnew",) for x in p.value.a[2])
                    ctx.ob("new:empty", ok_, fn.where(), "a new registry must start empty: %s" % (p.value,))
            continue
        ar = [x for x in subterms(can) if x.op == "arg"][0]
        c2, d2 = rebase(can, ar, a[0]), rebase(dep, ar, a[0])
        istag = fn.nice == REG + "::tag"
        s = a[1] if len(a) > 1 else None
        for p in ps:
            for ev in p.events:
                if ev.kind == "call" and ev.name.startswith("std::HashMap::") and ev.args and mapbase(ev.args[0]) in (c2, d2):
                    op = ev.name.split("::")[-1]
                    okop = op in ("get", "contains_key", "values", "iter", "keys", "len", "is_empty", "get_key_value", "entry", "capacity", "reserve") or (istag and op == "insert")
                    ctx.ob("%s:%s" % (fn.nice, op), okop, ev.where(), "entries may only be added, by tag(): %s calls HashMap::%s" % (fn.nice, op))
            if not istag or p.kind != "ret": continue
            k, v = split_result(p)
            ci = [x for x in calls(p, "std::HashMap::insert") if mapbase(x.args[0]) is c2]
            di = [x for x in calls(p, "std::HashMap::insert") if mapbase(x.args[0]) is d2]
            if k == "err":
                ctx.ob("tag:err:pure", not ci and not di, fn.where(), "a rejected tag must leave no entry behind")
                continue
            cs = canon_ok(s)

            def found(m, key): return any(kk.op == "discr" and vv == 1 and kk.a[0].op == "call" and kk.a[0].a[0] == "map.get" and kk.a[0].a[1][0] is m and same(p, kk.a[0].a[1][1], key) for kk, vv in p.facts.items() if isinstance(kk, T))
            def missing(m, key): return any(kk.op == "discr" and vv == 0 and kk.a[0].op == "call" and kk.a[0].a[0] == "map.get" and kk.a[0].a[1][0] is m and same(p, kk.a[0].a[1][1], key) for kk, vv in p.facts.items() if isinstance(kk, T))
            incan = found(c2, s)      # then s is canonical and listed
            indep = found(d2, s)      # then canonical form listed too (both are stored together)
            ctx.ob("tag:listed", incan or indep or found(c2, cs) or any(same(p, x.args[1], cs) for x in ci), fn.where(),
                   "after a successful request the canonical tag must be listed")
            isdep = indep or any(same(p, x.args[1], s) for x in di)
            noncanon = differ(p, s, cs) or (missing(c2, s) and found(c2, cs))
            # an entry listed under the canonical form carries that text (every insertion stores it so)
            def text(x):
                if x.op != "fld" or not x.a[1].endswith("LanguageTag.tag"): return False
                g = [y for y in subterms(x.a[0]) if y.op == "call" and y.a[0] == "map.get"]
                return len(g) == 1 and mapbase(g[0].a[1][0]) is c2 and same(p, g[0].a[1][1], cs) and found(c2, cs)
            txt = [x for kk in p.facts if isinstance(kk, T) and kk.op == "eq" for x in kk.a if text(x)]
            iscanon = same(p, s, cs) or incan or any(same(p, s, x) for x in txt)
            ctx.ob("tag:deprecated", (noncanon and isdep) or (iscanon and not di) or indep, fn.where(),
                   "the deprecated listing must record the requested spelling exactly when it is not canonical")
            # never overwrite an existing entry: one instance per tag
            for x in ci:
                ctx.ob("tag:unique", missing(c2, x.args[1]) or (same(p, x.args[1], cs) and missing(c2, cs)), x.where(),
                       "a stored tag must not be replaced by a second instance")


def c03(ctx):
    for cfg in ("default", "sync"):
        P = ctx.program(cfg)
        r = run(ctx, cfg, TAG + "::icu_language")
        if r:
            fn, e, a, ps = r
            g = run(ctx, cfg, TAG + "::as_str")
            txt = g[3][0].value if g and len(g[3]) == 1 else None
            txt = rebase(txt, g[2][0], a[0]) if txt is not None else None
            for p in ps:
                if p.kind == "ret":
                    v = p.value
                    good = v.op == "fld" and v.a[1] == OK0 and v.a[0].op == "call" and v.a[0].a[0] in PARSE and same(p, v.a[0].a[1][0], txt)
                    ctx.ob("%s:parse" % cfg, good, fn.where(), "the ICU language of a tag must be the parse of exactly its own text: %s" % show(v))
                elif p.kind == "panic":
                    # only when the stored canonical text does not parse, which ICU's canonicalize excludes (C01)
                    pc = mk("discr", mk("call", PARSE[0], (txt,), None), RES)
                    ctx.ob("%s:panic" % cfg, p.facts.get(pc) == 1, fn.where(), "unexpected panic %s" % p.info[0])
        r = run(ctx, cfg, REG + "::icu_language", opaque=(TAG + "::icu_language",))
        if r:
            fn, e, a, ps = r
            for p in ps:
                if p.kind == "loop": continue
                if p.kind != "ret":
                    ctx.ob("%s:reg-panic" % cfg, False, fn.where(), "panic %s" % p.info[0])
                    continue
                v = p.value
                g = get_of(v)
                fresh = v.op == "call" and v.a[0] == TAG + "::icu_language" and v.a[1][0] is a[1]
                ctx.ob("%s:reg-own" % cfg, fresh or (g is not None and same(p, g[1], a[1])), fn.where(),
                       "the registry must return the language object of the requested tag: %s" % show(v))
            for p in ps:
                for ev in calls(p, "std::HashMap::insert"):
                    k, v = ev.args[1:3]
                    good = k is a[1] and ((v.op == "call" and v.a[0] == TAG + "::icu_language" and v.a[1][0] is k) or (get_of(v) or (None, None))[1] is k)
                    ctx.ob("%s:reg-insert" % cfg, good, ev.where(), "the language cache must map a tag to its own language object")
        # nobody else writes an IcuLanguage map
        for f in tag_roots(ctx, cfg):
            if f.nice == REG + "::icu_language": continue
            r = run(ctx, cfg, f)
            if r is None: continue
            for p in r[3]:
                for ev in calls(p, "std::HashMap::insert"):
                    t = ev.args[2]
                    bad = t.op in ("fld", "call") and "LanguageIdentifier" in show(t) and "canonicalize" not in show(t) and "tags" not in show(t)
                    ctx.ob("%s:other-insert:%s" % (cfg, f.nice), not bad, ev.where(), "unexpected cache insert")


IMMUT = ("i18n_utility::LanguageTag", "i18n_utility::TaggedString", "i18n_utility::LanguageTagRegistry")


def c04(ctx):
    for cfg in ("default", "sync"):
        P = ctx.program(cfg)
        for name in IMMUT:
            ad = P.adts.get(name)
            if not ad:
                ctx.ob("%s:%s" % (cfg, name), False, name, "type %s not found" % name)
                continue
            mods = set()
            for f in ad["variants"][0][2]:
                ctx.ob("%s:private:%s.%s" % (cfg, name, f[0]), f[2] != "pub", name,
                       "field %s of %s is visible outside its module (%s): a handed-out value could be altered" % (f[0], name, f[2]))
        # no function hands out mutable access or mutates fields
        for key, f in P.fns.items():
            if f.kind != "fn": continue
            for i in range(1, f.argc + 1):
                ts = P.tystr(f.types, f.locals[i])
                if ts in ("&mut i18n_utility::LanguageTag", "&mut i18n_utility::TaggedString") and not f.derived:
                    ctx.ob("%s:mut:%s" % (cfg, f.nice), False, f.where(), "%s takes %s: tags and tagged strings must stay immutable" % (f.nice, ts))
            rt = P.tystr(f.types, f.locals[0])
            if "&mut i18n_utility::LanguageTag" in rt or "&mut i18n_utility::TaggedString" in rt:
                ctx.ob("%s:retmut:%s" % (cfg, f.nice), False, f.where(), "returns %s" % rt)
            for b in f.blocks:
                for stm in b["s"]:
                    if stm[0] == "=" and stm[1][1]:
                        ty = f.locals[stm[1][0]]
                        for pe in stm[1][1]:
                            t = f.types[ty] if ty is not None else None
                            if pe[0] == "f" and t and t[0] == "adt" and t[1] in ("i18n_utility::LanguageTag", "i18n_utility::TaggedString"):
                                ctx.ob("%s:write:%s" % (cfg, f.nice), False, f.where(stm[3]), "a field of %s is assigned in %s" % (t[1], f.nice))
                            if pe[0] == "*": ty = t[1] if t and t[0] in ("ref", "ptr") else (t[2][0] if t and t[0] == "adt" and t[2] else None)
                            elif pe[0] == "f": ty = pe[2]
                            else: ty = None if pe[0] != "d" else ty
            ctx.ob("%s:scan:%s" % (cfg, f.nice), True, f.where(), "no mutable access to a tag or tagged string")
        # constructions: LanguageTag only from canonicalised text, TaggedString only from new's arguments
        for key, f in P.fns.items():
            if f.kind != "fn" or f.derived: continue
            for b in f.blocks:
                for stm in b["s"]:
                    if stm[0] == "=" and stm[2][0] == "adt" and stm[2][1] in IMMUT:
                        ctx.ob("%s:ctor:%s:%s" % (cfg, stm[2][1], f.crate), f.crate == "i18n_utility", f.where(stm[3]), "constructed outside its crate")
        for f in tag_roots(ctx, cfg):
            r = run(ctx, cfg, f)
            if r is None: continue
            fn, e, a, ps = r
            for p in ps:
                tags = set()
                vals = [p.value] if p.value is not None else []
                for ev in p.events: vals += [x for x in ev.args if isinstance(x, T)]
                for v in vals:
                    for t in subterms(v):
                        if t.op == "adt" and t.a[0] == TAG: tags.add(t)
                for t in tags:
                    x = pay(t)
                    good = x.op == "fld" and x.a[1] == OK0 and x.a[0].op == "call" and x.a[0].a[0] == CANON
                    ctx.ob("%s:canon-only:%s" % (cfg, fn.nice), good, fn.where(),
                           "a language tag may only be created from canonicalised text; %s creates %s" % (fn.nice, show(t)))
        # accessors
        TS = "i18n_utility::TaggedString"
        r = run(ctx, cfg, TS + "::new")
        if r:
            fn, e, a, ps = r
            for p in ps:
                v = p.value
                good = v is not None and v.op == "adt" and {x for x in v.a[2]} == {a[0], a[1]}
                ctx.ob("%s:ts-new" % cfg, good, fn.where(), "a tagged string must keep exactly the text and tag it was given: %s" % (v,))
                if not good: continue
                for acc, want in (("as_str", a[0]), ("as_string", a[0]), ("tag", a[1])):
                    r2 = run(ctx, cfg, TS + "::" + acc, args=[v])
                    if r2:
                        for q in r2[3]:
                            ctx.ob("%s:ts-%s" % (cfg, acc), q.kind == "ret" and q.value is want, r2[0].where(),
                                   "TaggedString::%s must return what was stored; returns %s" % (acc, q.value))
                r2 = run(ctx, cfg, "<i18n_utility::TaggedString as Display>::fmt", args=[v, mk("arg", "f")])
                if r2:
                    for q in r2[3]:
                        w = [x for x in q.events if x.kind == "call" and "write" in x.name]
                        ctx.ob("%s:ts-display" % cfg, q.kind == "ret" and len(w) == 1 and w[0].args[-1] is a[0], r2[0].where(),
                               "Display of a tagged string must print exactly its text: %s" % [show(x.args[-1]) for x in w])
        r = run(ctx, cfg, TAG + "::as_str", args=[mk("adt", TAG, 0, (mk("arg", "text"),))])
        if r:
            for p in r[3]:
                ctx.ob("%s:tag-as_str" % cfg, p.kind == "ret" and p.value is mk("arg", "text"), r[0].where(), "as_str must return the tag's own text")
        # equality is structural (derived) or compares all fields
        for ty in (TAG, TS):
            im = [f for n, l in P.bynice.items() for f in l if n == "<%s as PartialEq<%s>>::eq" % (ty, ty)]
            for f in im:
                ctx.ob("%s:eq:%s" % (cfg, ty), f.derived or full_eq(ctx, cfg, f, ty), f.where(), "equality of %s must compare its full content" % ty)


def full_eq(ctx, cfg, f, ty):
    """A hand-written equality is true exactly when every field is equal."""
    P = ctx.program(cfg)
    n = len(P.adts[ty]["variants"][0][2])
    xs = [mk("arg", "x%d" % i) for i in range(n)]
    ys = [mk("arg", "y%d" % i) for i in range(n)]
    r = run(ctx, cfg, f, args=[mk("adt", ty, 0, tuple(xs)), mk("adt", ty, 0, tuple(ys))])
    if r is None: return False
    for p in r[3]:
        if p.kind != "ret": return False
        v = p.value
        eqs = [same(p, x, y) for x, y in zip(xs, ys)]
        if v is TRUE and all(eqs): continue
        if v is FALSE and any(differ(p, x, y) for x, y in zip(xs, ys)): continue
        if v.op == "eq" and all(q or set(v.a) == {x, y} for q, x, y in zip(eqs, xs, ys)) and any(set(v.a) == {x, y} for x, y in zip(xs, ys)): continue
        return False
    return True


def c05(ctx):
    cfg = "default"
    P = ctx.program(cfg)
    SD, D = "i18n_utility::ScriptDirection", "i18n_utility::Direction"
    ad = P.adts.get(SD)
    if not ad:
        ctx.ob("type", False, SD, "missing")
        return
    seen = {}
    vertical = ("TopToBottom", "BottomToTop")
    for i, v in enumerate(ad["variants"]):
        t = mk("adt", SD, i, ())
        res = {}
        for m in ("directions", "line", "grapheme"):
            r = run(ctx, cfg, SD + "::" + m, args=[t])
            if r is None: return
            ps = r[3]
            if len(ps) != 1 or ps[0].kind != "ret":
                ctx.ob("%s:%s" % (v[0], m), False, r[0].where(), "not a single value: %s" % ps)
                return
            res[m] = ps[0].value
            wh = r[0].where()
        d = res["directions"]
        if d.op != "tup" or len(d.a[0]) != 2:
            ctx.ob("%s:tuple" % v[0], False, wh, "directions is %s" % show(d))
            continue
        ln, gr = [variant_name(P, x) for x in d.a[0]]
        ctx.ob("%s:line" % v[0], d.a[0][0] is res["line"], wh, "line() of %s is %s but directions() says %s" % (v[0], show(res["line"]), ln))
        ctx.ob("%s:grapheme" % v[0], d.a[0][1] is res["grapheme"], wh, "grapheme() of %s disagrees with directions()" % v[0])
        ctx.ob("%s:perpendicular" % v[0], (ln in vertical) != (gr in vertical), wh, "line and grapheme directions of %s are not perpendicular" % v[0])
        ctx.ob("%s:name" % v[0], ln is not None and v[0] == (ln or "") + (gr or ""), wh, "%s maps to (%s, %s)" % (v[0], ln, gr))
        ctx.ob("%s:distinct" % v[0], (ln, gr) not in seen, wh, "two script directions share (%s, %s)" % (ln, gr))
        seen[(ln, gr)] = v[0]
