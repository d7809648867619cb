"""Rules for the command registry and the commands shipped with the crate."""
from common import *

REG = "i18n_localiser::CommandRegistry"
CERR = "i18n_localiser::CommandError"
PV = "i18n_utility::PlaceholderValue"


def getof(t):
    """(map, key) when t is the payload of a lookup in a map."""
    if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get": return t.a[0].a[1]
    return None


def present(p, m, k):
    """Whether the path knows key k to be in map m."""
    for q, v in p.facts.items():
        if isinstance(q, T) and q.op == "discr" and q.a[0].op == "call" and q.a[0].a[0] == "map.get":
            mm, kk = q.a[0].a[1]
            if mapbase(mm) is mapbase(m) and kk is k: return v == 1
    return None


def c15(ctx):
    for cfg in ("full", "sync"):
        P = ctx.program(cfg)
        store = None
        r = run(ctx, cfg, REG + "::insert")
        if r is None: continue
        fn, e, a, ps = r
        me, name, func = a
        kinds = set()
        for p in ps:
            if p.kind == "panic": ctx.ob("%s:insert:panic" % cfg, poison(p), fn.where(), "registering a command can panic: %s" % (p.info[0],)); continue
            if p.kind != "ret": continue
            k, v = split_result(p)
            ins = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("Map::insert")]
            oth = [ev for ev in p.events if ev.kind == "call" and "Map::" in ev.name and ev.name.split("::")[-1] in ("remove", "clear", "retain", "drain", "get_mut", "extend")]
            ctx.ob("%s:insert:other" % cfg, not oth, fn.where(), "registering a command changes other entries: %s" % [ev.name for ev in oth])
            if k == "ok":
                kinds.add("ok")
                okk = len(ins) == 1 and ins[0].args[1] is name and ins[0].args[2] is func
                ctx.ob("%s:insert:stored" % cfg, okk, fn.where(), "a successful registration must store exactly the given function under the given name")
                if okk:
                    m = mapbase(ins[0].args[0])
                    ctx.ob("%s:insert:same" % cfg, store is None or store is m, fn.where(), "registrations go to different stores")
                    store = m
                    ctx.ob("%s:insert:new" % cfg, present(p, m, name) is False, fn.where(), "a registration must never replace an existing command")
            elif k == "err":
                kinds.add("err")
                ctx.ob("%s:insert:refused" % cfg, variant_name(P, v) == "AlreadyExists" and v.a[2][0] is name and not ins, fn.where(), "a refused registration must name the command, and change nothing: %s" % show(v))
                m = [mapbase(ev.args[0]) for ev in p.events if ev.kind == "call" and "Map::" in ev.name]
                ctx.ob("%s:insert:why" % cfg, bool(m) and present(p, m[0], name) is True, fn.where(), "a registration is refused although the name is free")
        ctx.ob("%s:insert:both" % cfg, kinds == {"ok", "err"}, fn.where(), "registration outcomes: %s" % sorted(kinds))
        if store is None: continue

        def mine(t, selfarg):
            from utility import rebase
            return mapbase(t) is rebase(store, me, selfarg)
        r = run(ctx, cfg, REG + "::command")
        if r is not None:
            fn, e, a, ps = r
            kinds = set()
            for p in ps:
                if p.kind == "panic": ctx.ob("%s:command:panic" % cfg, poison(p), fn.where(), "looking up a command can panic"); continue
                if p.kind != "ret": continue
                k, v = split_result(p)
                kinds.add(k)
                if k == "ok":
                    g = getof(v)
                    ctx.ob("%s:command:found" % cfg, g is not None and mine(g[0], a[0]) and g[1] is a[1], fn.where(), "the function registered under exactly this name must be returned, not %s" % show(v))
                else:
                    ms = [mapbase(ev.args[0]) for ev in p.events if ev.kind == "call" and "Map::" in ev.name]
                    ctx.ob("%s:command:missing" % cfg, k == "err" and variant_name(P, v) == "NotFound" and v.a[2][0] is a[1] and bool(ms) and mine(ms[0], a[0]) and present(p, ms[0], a[1]) is False, fn.where(),
                           "an unknown command must be reported under its name: %s" % show(v))
            ctx.ob("%s:command:both" % cfg, kinds == {"ok", "err"}, fn.where(), "lookup outcomes: %s" % sorted(kinds))
        r = run(ctx, cfg, REG + "::list")
        if r is not None:
            fn, e, a, ps = r
            for p in ps:
                if p.kind != "ret": continue
                d = vec_desc(ps, p.value)
                okk = len(d) >= 1 and all(x[0] == "each" and mine(x[1], a[0]) and x[2] in ("keys", "iter", "into_iter") and x[4] for x in d)
                el = {x[3] for x in d if x[0] == "each"}
                for x in el:
                    okk = okk and (x is None or x.op == "elem" or (x.op == "fld" and x.a[1] == "tuple.0"))
                ctx.ob("%s:list" % cfg, okk and len({(x[1], x[2]) for x in d}) == 1, fn.where(), "the listing must be the registered names, once each: %s" % show(p.value))
        for nm in (REG + "::new", "<%s as Default>::default" % REG):
            r = run(ctx, cfg, nm, need=nm.endswith("new"))
            if r is None: continue
            for p in r[3]:
                if p.kind == "ret":
                    v = [x for x in subterms(p.value) if x.op == "mapnew"]
                    ctx.ob("%s:new" % cfg, len(v) == 1 and not any(x.op == "upd" for x in subterms(p.value)), r[0].where(), "a new registry must be empty: %s" % show(p.value))
        # nobody else changes it
        for f in pub_roots(P, REG + "::"):
            m = f.nice.split("::")[-1]
            if m in ("insert", "command", "list", "new"): continue
            r = run(ctx, cfg, f)
            if r is None: continue
            for p in r[3]:
                for ev in p.events:
                    if ev.kind == "call" and "Map::" in ev.name and ev.name.split("::")[-1] in ("insert", "remove", "clear", "retain", "drain"):
                        ctx.ob("%s:writer:%s" % (cfg, m), False, ev.where(), "%s changes registered commands" % f.nice)


def letters(x):
    """Characters a text pattern stands for."""
    if x.op == "c" and isinstance(x.a[1], int): return {chr(x.a[1])}
    if x.op == "c" and isinstance(x.a[1], str) and len(x.a[1]) == 1: return {x.a[1]}
    if x.op == "arr" and all(y.op == "c" for y in x.a[0]): return {chr(y.a[1]) if isinstance(y.a[1], int) else y.a[1] for y in x.a[0]}
    return None


def poison(p):
    """Panic because another thread panicked while holding the lock."""
    return p.info[0].startswith("panic result::unwrap_failed") and any("Poison" in show(x) or x.op == "fld" for x in p.info[1] if isinstance(x, T))


def strvar(p, P, t):
    """Known variant of a placeholder value, '' if only excluded ones are known."""
    d = p.facts.get(mk("discr", t, PV))
    vs = {int(x[1]): x[0] for x in P.adts[PV]["variants"]}
    if isinstance(d, int): return vs.get(d)
    if isinstance(d, frozenset): return "not:" + ",".join(sorted(vs[x] for x in d if x in vs))
    return None


def minlen(p, v):
    lo, hi = 0, None
    iv = p.facts.get(("iv", mk("len", v)))
    if iv: lo, hi = iv[0] or 0, iv[1]
    k = p.facts.get(mk("len", v))
    if isinstance(k, int): lo = hi = k
    return lo, hi


SAME = ("to_string", "display", "to_string_lossy", "to_str", "as_os_str", "into_os_string", "to_owned", "as_path", "new", "from", "to_path_buf", "into_owned")


def same_path(t, s):
    """t is text s, possibly seen as a path and displayed again."""
    while t is not s:
        if t.op == "call" and t.a[1] and (t.a[0] == "to_string" or t.a[0].split("::")[-1] in SAME and "Component" not in t.a[0]): t = t.a[1][0]
        elif t.op in ("to_string", "fmt") and t.a: t = t.a[0]
        elif t.op == "fld" and t.a[1] in (SOME0, OK0): t = t.a[0]
        else: return False
    return True


VOWELS = set("aeiou")


def c16(ctx):
    for cfg in ("full", "sync"):
        P = ctx.program(cfg)
        for short in ("file_path", "english_a_or_an"):
            c = [n for n in P.bynice if n.startswith("i18n_localiser::") and n.endswith("::" + short)]
            if len(c) != 1:
                ctx.ob("anchor:" + short, False, short, "command %s not found" % short)
                continue
            r = run(ctx, cfg, c[0])
            if r is None: continue
            fn, e, a, ps = r
            v = a[0]
            key = "%s:%s" % (cfg, short)
            w = fn.where()
            p0, p1 = mk("idx", v, cint(0)), mk("idx", v, cint(1))
            s0, s1 = mk("fld", p0, PV + "@String.0"), mk("fld", p1, PV + "@String.0")
            kinds = set()
            for p in ps:
                if p.kind == "panic":
                    ctx.ob(key + ":panic", False, p.info[2].where(p.info[3]), "the command can panic: %s" % (p.info[0],))
                    continue
                if p.kind != "ret": continue
                k, x = split_result(p)
                lo, hi = minlen(p, v)
                if k == "ok":
                    kinds.add("ok")
                    ctx.ob(key + ":valid", lo >= 2 and strvar(p, P, p0) == "String" and strvar(p, P, p1) == "String", w, "the command succeeds without a text parameter")
                    if short == "file_path":
                        ctx.ob(key + ":path", same_path(x, s1), w, "the result must be the given path: %s" % show(x))
                    else:
                        ch = [q for q in p.facts if isinstance(q, T) and q.op == "elem" and q.a[0] is s1]
                        nx = [ev for ev in p.events if ev.kind == "next" and ev.args[0] is s1]
                        first = p.facts.get(ch[0]) if ch else None
                        vowel, ruled = isinstance(first, int) and chr(first) in VOWELS, set()
                        known = vowel or (isinstance(first, int)) or (isinstance(first, frozenset) and VOWELS <= {chr(z) for z in first}) or any(ev.kind == "exhausted" and ev.args[0] is s1 for ev in p.events) \
                            or p.facts.get(mk("eq", mk("len", s1), cint(0))) == 1
                        for q, w_ in p.facts.items():
                            # the first letter examined by a prefix test
                            if isinstance(q, T) and q.op == "call" and q.a[0] == "core::str::starts_with" and q.a[1][0] is s1:
                                cs = letters(q.a[1][1])
                                if cs is None: continue
                                if w_ == 1 and cs <= VOWELS: vowel = known = True
                                if w_ == 1 and not cs & VOWELS: known = True
                                if w_ == 0: ruled |= cs
                        known = known or VOWELS <= ruled
                        kinds.add("an" if vowel else "a")
                        ctx.ob(key + ":article", x.op == "c" and known and x.a[1] == ("an" if vowel else "a"), w, "'an' exactly for words beginning with a, e, i, o or u: %s" % show(x))
                elif k == "err":
                    vn = variant_name(P, x)
                    kinds.add(vn)
                    if vn == "ParameterMissing":
                        ctx.ob(key + ":missing", hi is not None and hi < 2 and x.a[2][0] is s0 and x.a[2][1] is cint(1), w, "a missing parameter must be reported as parameter 1 of this command: %s" % show(x))
                    elif vn == "InvalidType":
                        which = x.a[2][1]
                        if which is cint(0): ctx.ob(key + ":type0", hi == 0 or (strvar(p, P, p0) or "").startswith("not:") and "String" in strvar(p, P, p0) or strvar(p, P, p0) not in (None, "String"), w, "parameter 0 is refused although it is text")
                        else: ctx.ob(key + ":type1", which is cint(1) and x.a[2][0] is s0 and strvar(p, P, p1) not in (None, "String"), w, "parameter 1 is refused although it is text: %s" % show(x))
                    else: ctx.ob(key + ":error", False, w, "unexpected failure %s" % show(x))
                else: ctx.ob(key + ":result", False, w, "unrecognised result %s" % show(x))
            need = {"ok", "ParameterMissing", "InvalidType"} | ({"a", "an"} if short != "file_path" else set())
            ctx.ob(key + ":complete", need <= kinds, w, "outcomes found: %s" % sorted(map(str, kinds)))
