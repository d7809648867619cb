"""Rules for crates/localiser: the Localiser type (answers, cache, defaults, structured data)."""
from common import *
from utility import rebase

LOC = "i18n_localiser::Localiser"
LERR = "i18n_localiser::LocaliserError"
FERR = "i18n_localiser::FormatterError"
CD = "i18n_localiser::CacheData"
PROV = "i18n_provider::LocalisationProviderTrait::"
FNEW = "i18n_localiser::Formatter::try_new"
FFMT = "i18n_localiser::Formatter::format"
OPAQUE = (FNEW, FFMT)
GRAMMAR = "{}`#"
CFGS = ("full", "sync")


def lrun(ctx, cfg, nice, **kw):
    kw.setdefault("opaque", OPAQUE)
    kw.setdefault("recurse", 1)
    P = ctx.program(cfg)
    for n in OPAQUE:
        if P.find(n) is None:
            ctx.ob("anchor:" + n, False, n, "function %s not found" % n)
            return None
    # sequential semantics in every configuration: histories are interleavings of whole calls
    fn = P.find(nice)
    if fn is None:
        ctx.ob("anchor:%s" % nice, False, nice, "public function %s not found" % nice)
        return None
    memo = ctx.__dict__.setdefault("_lmemo", {})
    k = (cfg, nice, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if k not in memo:
        e = Engine(P, sync=False, **kw)
        a = e.args_for(fn)
        try:
            ps = e.run(fn, a)
        except Inconclusive as x:
            ctx.ob("analysis:%s" % nice, False, fn.where(), "analysis of %s did not terminate within bounds: %s" % (nice, x))
            memo[k] = None
            return None
        ctx.used(e, ps)
        memo[k] = (fn, e, a, ps)
    return memo[k]


def flds(t):
    """(root, [labels]) of a field chain."""
    r = []
    while t.op == "fld":
        r.append(t.a[1])
        t = t.a[0]
    r.reverse()
    return t, r


def pcall(t, meth):
    return t.op == "call" and t.a[0] == PROV + meth


def payload(t):
    """(call, component, identifier, language, which) if t is the text (0) or tag (1) of a string the provider returned."""
    b, l = flds(t)
    if pcall(b, "string") and len(l) == 3 and l[0] == OK0 and l[1] == SOME0:
        if l[2].endswith(".0") or l[2].endswith(".1"):
            return b, b.a[1][1], b.a[1][2], b.a[1][3], int(l[2][-1])
    return None


def payload_pair(s, t):
    """(component, identifier, language, call) when s, t are text and tag of one provider answer."""
    a, b = payload(s), payload(t)
    if a is None or b is None or a[0] is not b[0] or a[4] != 0 or b[4] != 1: return None
    return a[1], a[2], a[3], a[0]


def default_of(t, component):
    """t is the default language in the details of `component`."""
    b, l = flds(t)
    return pcall(b, "component_details") and b.a[1][1] is component and len(l) == 2 and l[0] == OK0 and l[1].endswith(".default")


def uncell(t):
    while True:
        if t.op == "inner": t = t.a[0]
        elif t.op == "cell": t = t.a[1]
        elif t.op == "upd": t = t.a[0]
        else: return t


def flatkey(k):
    if k.op == "tup": return [y for x in k.a[0] for y in flatkey(x)]
    if k.op == "adt" and k.a[2]: return [y for x in k.a[2] for y in flatkey(x)]
    return [k]


def chain(t, roots=None):
    """(store, [keys]) when t is reached by successive lookups from a collection of self."""
    keys = []
    while True:
        while t.op == "upd": t = t.a[0]
        if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get":
            m, k = t.a[0].a[1]
            keys = flatkey(k) + keys
            t = m
            continue
        if roots and t in roots:
            m, k = roots[t]
            keys = flatkey(k) + keys
            t = m
            continue
        return t, keys


def self_store(t, selfarg):
    """t is content held (possibly behind a cell) by a field of self."""
    t = mapbase(t)
    if t.op == "inner": t = t.a[0]
    b, l = flds(t)
    return b is selfarg and len(l) == 1


def roles(keys, component, identifier, langs):
    r = []
    for k in keys:
        if k is component: r.append("c")
        elif k is identifier: r.append("i")
        elif k in langs: r.append("L")
        else: r.append("?")
    return tuple(r)


def new_roots(p):
    """Fresh maps inserted somewhere on this path: map -> (container, key)."""
    r = {}
    for ev in p.events:
        if ev.kind == "call" and ev.name == "std::HashMap::insert":
            v = mapbase(ev.args[2])
            if v.op == "mapnew": r[v] = (ev.args[0], ev.args[1])
    return r


def eff(p, opt, cellfield, selfarg, e):
    """Effective value (0/1/None) of an optional setting on path p."""
    d = p.facts.get(mk("discr", opt, OPT))
    if d == 1: return p.facts.get(mk("fld", opt, SOME0)), "given"
    if d == 0: return None, "default"
    return None, "?"


def settings(P):
    """Nothing here depends on private field names: the default of a setting is the cell its public setter writes."""
    return None


def answer(p, v, selfarg, values, e):
    """Describe an Ok answer pair: (kind, component, identifier, language, extra) or None."""
    if v.op != "tup" or len(v.a[0]) != 2: return None
    s, t = v.a[0]
    pp = payload_pair(s, t)
    if pp: return ("raw",) + pp
    bs, ls = flds(s)
    bt, lt = flds(t)
    if bs is bt and bs.op == "call" and bs.a[0] == FFMT and len(ls) == 2 and ls[0] == OK0 and ls[1].endswith(".0") and lt[0] == OK0 and lt[1].endswith(".1"):
        return formatted(p, bs, selfarg, values)
    # a cached text
    if ls and lt and ls[-1] == CD + "@Localised.0" and lt[-1] == CD + "@Localised.1" and s.a[0] is t.a[0]:
        base_, keys = chain(s.a[0], new_roots(p))
        return ("cached", base_, keys, s.a[0])
    return None


def formatted(p, call, selfarg, values):
    fo, sf, va = call.a[1]
    if va is not values or sf is not selfarg: return None
    x = uncell(fo)
    b, l = flds(x)
    if b.op == "call" and b.a[0] == FNEW and l == [OK0]:
        sf2, s, t = b.a[1]
        pp = payload_pair(s, t)
        if pp is None or sf2 is not selfarg: return None
        return ("fmt",) + pp
    if l and l[-1] == CD + "@Formatter.0":
        base_, keys = chain(x.a[0], new_roots(p))
        return ("cachedfmt", base_, keys, x.a[0])
    return None


def nogrammar(p, ps, s, selfarg, P):
    """The path establishes that text s contains no grammar character (or is empty)."""
    if p.facts.get(mk("eq", mk("len", s), cint(0))) == 1: return True
    for k, v in p.facts.items():
        if not isinstance(k, T): continue
        # parser said: no grammar
        if k.op == "discr" and k.a[1] == FERR:
            b, l = flds(k.a[0])
            if b.op == "call" and b.a[0] == FNEW and l == [ERR0] and b.a[1][1] is s:
                ad = P.adts[FERR]
                names = [x[0] for x in ad["variants"] if int(x[1]) == v] if isinstance(v, int) else []
                if names == ["NoGrammar"]: return True
    want = set(GRAMMAR)
    for k, v in p.facts.items():
        if isinstance(k, T) and k.op == "call" and v == 0 and k.a[0] in ("core::str::contains", "core::str::find"):
            if k.a[1][0] is not s: continue
            want -= charset(k.a[1][1], P, selfarg)
    if not want: return True
    # loop over the characters of s that ends without having met a grammar character
    for ev in p.events:
        if ev.kind == "exhausted" and ev.name == "chars" and ev.args[0] is s:
            lid = ev.loops[-1] if ev.loops else None
            backs = [q for q in ps if q.kind == "loop" and q.info == lid]
            if backs and all(any(isinstance(k, T) and k.op == "call" and k.a[0] == "core::str::contains" and v == 0
                                 and is_grammar(k.a[1][0], selfarg) and k.a[1][1].op == "elem" for k, v in q.facts.items()) for q in backs):
                return True
    return False


def is_grammar(t, selfarg):
    if t.op == "c": return set(GRAMMAR) <= set(str(t.a[1]))
    b, l = flds(t)
    return b is selfarg and len(l) == 1 and l[0].endswith(".grammar")


def charset(t, P, selfarg):
    """Characters matched by a str pattern argument."""
    if t.op == "c": return {chr(t.a[1])} if t.a[0] == "int" else ({t.a[1]} if len(str(t.a[1])) == 1 else set())
    if t.op == "arr": return {chr(x.a[1]) for x in t.a[0] if x.op == "c" and x.a[0] == "int"}
    if t.op == "clo":
        fn = P.fns.get(t.a[0])
        if fn is None: return set()
        e = Engine(P)
        ch = mk("arg", "character")
        try:
            ps = e.run(fn, [t, ch])
        except Inconclusive:
            return set()
        got = set(GRAMMAR)
        for p in ps:
            if p.kind != "ret": return set()
            v = p.value
            if v.op == "call" and v.a[0] == "core::str::contains" and is_grammar(v.a[1][0], selfarg) and v.a[1][1] is ch: continue
            if v is TRUE: continue
            if v is FALSE:
                # this path must exclude every grammar character
                bad = {c for c in GRAMMAR if p.facts.get(mk("eq", ch, cint(ord(c)))) != 0 and ord(c) not in (p.facts.get(ch) if isinstance(p.facts.get(ch), frozenset) else ())}
                if isinstance(p.facts.get(ch), int): bad = {c for c in GRAMMAR if ord(c) == p.facts.get(ch)}
                if any(isinstance(k, T) and k.op == "call" and k.a[0] == "core::str::contains" and x == 0 and is_grammar(k.a[1][0], selfarg) and k.a[1][1] is ch for k, x in p.facts.items()): bad = set()
                got -= bad
                continue
            return set()
        return got
    return set()


def absent(p, selfarg, component, identifier, L):
    """The provider answered 'no string' for (component, identifier, L) on this path."""
    for k, v in p.facts.items():
        if isinstance(k, T) and k.op == "discr" and k.a[1] == OPT and v == 0:
            b, l = flds(k.a[0])
            if pcall(b, "string") and l == [OK0] and b.a[1][1] is component and b.a[1][2] is identifier and b.a[1][3] is L: return True
    return False


def entry_kind(p, ent):
    d = p.facts.get(mk("discr", ent, CD))
    return d


def cache_writes(ctx, cfg, P, fn, e, ps, selfarg, tag):
    """Obligations on every write into collections held by self. Returns set of role orders used."""
    orders = set()
    n = 0
    for p in ps:
        roots = new_roots(p)
        for ev in p.events:
            if ev.kind != "call" or not ev.name.startswith(("std::HashMap::", "std::BTreeMap::")): continue
            op = ev.name.split("::")[-1]
            b, keys = chain(ev.args[0], roots)
            if not self_store(b, selfarg): continue
            if op in ("get", "contains_key", "entry", "get_mut", "iter", "keys", "values", "len", "is_empty"): continue
            if op != "insert":
                # removing entries does not change answers
                continue
            v = ev.args[2]
            keys = keys + flatkey(ev.args[1])
            if mapbase(v).op == "mapnew": continue
            n += 1
            where = ev.where()
            if v.op != "adt" or v.a[0] != CD:
                ctx.ob("%s:%s:entry" % (cfg, tag), False, where, "unrecognised cache entry %s" % show(v))
                continue
            var = variant_name(P, v)
            if var == "Localised":
                pp = payload_pair(v.a[2][0], v.a[2][1])
                if pp is None:
                    ctx.ob("%s:%s:entry" % (cfg, tag), False, where, "a cached text must be exactly what the provider returned, with its tag: %s" % show(v))
                    continue
                c, i, L, call = pp
                ok_ = nogrammar(p, ps, v.a[2][0], selfarg, P)
                ctx.ob("%s:%s:plain" % (cfg, tag), ok_, where,
                       "a text may be cached as final only when it is known to contain no pattern syntax; otherwise a later formatting request returns the raw pattern")
            else:
                x = uncell(v.a[2][0])
                bb, l = flds(x)
                pp = None
                if bb.op == "call" and bb.a[0] == FNEW and l == [OK0]: pp = payload_pair(bb.a[1][1], bb.a[1][2])
                if pp is None:
                    ctx.ob("%s:%s:entry" % (cfg, tag), False, where, "a cached formatter must be built from exactly what the provider returned: %s" % show(v))
                    continue
                c, i, L, call = pp
            r = roles(keys, c, i, (L,))
            orders.add(r)
            ctx.ob("%s:%s:key" % (cfg, tag), sorted(r) == ["L", "c", "i"], where,
                   "a cached entry must be stored under exactly the language asked of the provider, the component and the identifier (kept apart); stored under %s" % show(mk("tup", tuple(keys))))
    return orders, n


def c09(ctx):
    for cfg in CFGS:
        P = ctx.program(cfg)
        orders = set()
        for meth in ("format", "literal", "format_with_defaults", "literal_with_defaults"):
            r = lrun(ctx, cfg, LOC + "::" + meth)
            if r is None: continue
            fn, e, a, ps = r
            selfarg, comp, ident = a[0], a[1], a[2]
            o, n = cache_writes(ctx, cfg, P, fn, e, ps, selfarg, meth)
            orders |= o
            for p in ps:
                if p.kind != "ret": continue
                k, v = split_result(p)
                if k != "ok": continue
                values = a[3] if meth.startswith("format") else None
                an = answer(p, v, selfarg, values, e)
                if an is None:
                    # not an answer of the provider's; here it matters whether it is taken from what earlier requests left
                    st = [x for x in subterms(v) if x.op == "call" and x.a[0] == "map.get" and self_store(chain(mk("fld", x, SOME0), new_roots(p))[0], selfarg)]
                    ctx.ob("%s:%s:entry" % (cfg, meth), not st, fn.where(), "the answer is not the text and tag (or the formatting) of one cache entry: %s" % show(v))
                    continue
                if an[0] in ("cached", "cachedfmt"):
                    b, keys = an[1], an[2]
                    langs = [x for x in keys if x is not comp and x is not ident]
                    rr = roles(keys, comp, ident, langs)
                    orders.add(rr)
                    ctx.ob("%s:%s:lookup" % (cfg, meth), self_store(b, selfarg) and sorted(rr) == ["L", "c", "i"], fn.where(),
                           "a cached answer must be looked up under language, component and identifier; looked up under %s" % show(mk("tup", tuple(keys))))
        ctx.ob("%s:order" % cfg, len(orders) == 1, "crates/localiser/src/localiser.rs", "cache entries are stored and looked up under differently arranged keys: %s" % sorted(orders))
        # no other public function writes the cache in another way
        for f in pub_roots(P, LOC + "::"):
            m = f.nice.split("::")[-1]
            if m in ("format", "literal", "format_with_defaults", "literal_with_defaults", "try_new"): continue
            r = lrun(ctx, cfg, f.nice)
            if r is None: continue
            cache_writes(ctx, cfg, P, r[0], r[1], r[3], r[2][0], m)
        formatter_history(ctx, cfg, P)


FTY = "i18n_localiser::Formatter"


def mutated_fields(P, ty):
    """Fields of struct `ty` written by any function of the workspace through a mutable receiver: field -> [where]."""
    out = {}
    for f in P.fns.values():
        if f.kind != "fn" or f.crate == "synthetic" or f.derived: continue
        for b, blk in enumerate(f.blocks):
            sites = [(m[1], False) for m in blk["s"] if m[0] == "="]
            sites += [(m[2][1], True) for m in blk["s"] if m[0] == "=" and m[2][0] == "ref" and m[2][2]]
            t = blk["t"]
            if t[0] == "call": sites.append((t[3], False))
            for pl, isref in sites:
                tyi = f.locals[pl[0]]
                for i, el in enumerate(pl[1]):
                    tk = f.types[tyi] if tyi is not None else None
                    if el[0] == "*":
                        tyi = tk[1] if tk and tk[0] in ("ref", "ptr") else (tk[2][0] if tk and tk[0] == "adt" and tk[2] else None)
                    elif el[0] == "f":
                        if tk and tk[0] == "adt" and tk[1] == ty:
                            fld = P.adts[ty]["variants"][0][2][el[1]][0]
                            out.setdefault(fld, []).append(f.where(blk["l"]))
                        tyi = el[2]
                    elif el[0] == "d": pass
                    else: tyi = None
    return out


def formatter_history(ctx, cfg, P):
    mf = mutated_fields(P, FTY)
    r = run(ctx, cfg, FFMT, opaque=[f.nice for f in P.fns.values() if f.kind == "fn" and f.nice.startswith(FTY + "::") and f.nice != FFMT])
    if r is None: return
    fn, e, a, ps = r
    inner = [f.nice for f in P.fns.values() if f.kind == "fn" and f.nice.startswith(FTY + "::") and f.nice != FFMT]
    for fld in sorted(mf):
        for p in ps:
            if p.kind != "ret": continue
            work = [i for i, ev in enumerate(p.events) if ev.kind == "call" and ev.name in inner]
            upto = p.events[:work[0]] if work else p.events
            lab = "%s.%s" % (FTY, fld)
            src = mk("fld", a[0], lab)
            done = False
            for ev in upto:
                if ev.kind == "exhausted" and mapbase(ev.args[0]) is src:
                    lid = ev.loops[-1] if ev.loops else None
                    backs = [q for q in ps if q.kind == "loop" and (q.info == lid or lid is None)]
                    done = bool(backs) and all(any(x.kind == "call" and x.name in ("alloc::String::clear", "alloc::Vec::clear") and mapbase(x.args[0]).op == "elem" for x in q.events)
                                               or any(isinstance(rt, tuple) and rt[0] == "o" and rt[1].op == "elem" and not contains(v, rt[1]) for rt, v in q.store.items()) for q in backs)
            if not done and work:
                cur = p.events[work[0]].args[0]
                v = e.proj(None, cur, ("f", 0, None, lab)) if cur.op != "arg" else src
                if v is not src and not contains(v, src): done = True
                if v.op in ("repeat", "call") and not any(x is src for x in subterms(v) if x.op != "len"): done = True
            ctx.ob("%s:history:%s" % (cfg, fld), done or not work, fn.where(),
                   "formatting changes `%s` (%s) without first resetting it, so a reused formatter can give a different answer than a fresh one" % (fld, mf[fld][0]))
    ctx.ob("%s:history" % cfg, True, fn.where(), "fields changed by formatting: %s" % sorted(mf))


def deflt_cells(ctx, cfg):
    """Cells written by defaults(): {'language': cell, 'fallback': cell, 'caching': cell, 'script': cell} as seen from self."""
    memo = ctx.__dict__.setdefault("_cells", {})
    if cfg in memo: return memo[cfg]
    r = lrun(ctx, cfg, LOC + "::defaults")
    if r is None: return None
    fn, e, a, ps = r
    out = {}
    for p in ps:
        for (root, v) in p.store.items():
            if root[0] == "o" and root[1].op == "inner":
                for i, nm in ((1, "language"), (2, "fallback"), (3, "caching")):
                    if v is mk("fld", a[i], SOME0): out[nm] = rebase(root[1], a[0], mk("arg", "self"))
    memo[cfg] = out
    return out


def setting_value(p, opt, cell):
    """(value term) the effective setting refers to."""
    if opt is None: return cell
    d = p.facts.get(mk("discr", opt, OPT))
    if d == 1: return mk("fld", opt, SOME0)
    if d == 0: return cell
    return None


def c10(ctx):
    for cfg in CFGS:
        P = ctx.program(cfg)
        cells = deflt_cells(ctx, cfg)
        if cells is None: continue
        for meth in ("format", "literal", "format_with_defaults", "literal_with_defaults"):
            r = lrun(ctx, cfg, LOC + "::" + meth)
            if r is None: continue
            fn, e, a, ps = r
            selfarg, comp, ident = a[0], a[1], a[2]
            isf = meth.startswith("format")
            values = a[3] if isf else None
            if meth.endswith("defaults"):
                tag = rebase(cells.get("language", UNIT), mk("arg", "self"), selfarg)
                fbo = None
            else:
                tag = a[4] if isf else a[3]
                fbo = a[5] if isf else a[4]
            fbcell = rebase(cells.get("fallback", UNIT), mk("arg", "self"), selfarg)
            judge(ctx, cfg, P, meth, fn, e, ps, selfarg, comp, ident, values, tag, fbo, fbcell)


def tagmatch(t, tag):
    return t is tag or mapbase(t) is tag


def judge(ctx, cfg, P, meth, fn, e, ps, selfarg, comp, ident, values, tag, fbo, fbcell):
    isf = values is not None
    key = "%s:%s" % (cfg, meth)
    w = fn.where()
    kinds = set()
    for p in ps:
        if p.kind == "loop": continue
        if p.kind == "panic":
            ctx.ob(key + ":panic@%s" % p.info[2].nice, False, p.info[2].where(p.info[3]), "%s can panic: %s" % (meth, p.info[0]))
            continue
        fb = setting_value(p, fbo, fbcell)
        fbv = p.facts.get(fb) if fb is not None else None

        def lang_ok(L, cached):
            """The answer is for the requested language, or legitimately for the default language."""
            if tagmatch(L, tag): return True, "tag"
            if default_of(L, comp):
                return fbv == 1 and absent(p, selfarg, comp, ident, tag), "default"
            return False, "?"

        k, v = split_result(p)
        if k == "ok":
            an = answer(p, v, selfarg, values, e)
            if an is None:
                ctx.ob(key + ":source", False, w, "the answer is not the provider's string (formatted with the given values) for this request: %s" % show(v))
                continue
            kinds.add(an[0])
            if an[0] in ("raw", "fmt"):
                _, c, i, L, call = an
                ctx.ob(key + ":request", c is comp and i is ident, w, "the answer is for another string: %s %s" % (show(c), show(i)))
                good, which = lang_ok(L, False)
                if an[0] == "raw" and isf:
                    ctx.ob(key + ":rawformat", nogrammar(p, ps, v.a[0][0], selfarg, P), w,
                           "format returns the provider's text unformatted although it may contain pattern syntax")
                if an[0] == "fmt" and not isf: ctx.ob(key + ":literal", False, w, "literal returns formatted text")
            else:
                _, b, keys, ent = an
                langs = [x for x in keys if x is not comp and x is not ident]
                rr = roles(keys, comp, ident, langs)
                ctx.ob(key + ":request", sorted(rr) == ["L", "c", "i"], w, "a cached answer for another string: looked up under %s" % show(mk("tup", tuple(keys))))
                if len(langs) != 1: continue
                good, which = lang_ok(langs[0], True)
            ctx.ob(key + ":language:" + which, good, w,
                   "the answer must be for the requested language, or for the component's default language only when fallback is in force and the requested language has no string")
        elif k == "err":
            vn = variant_name(P, v)
            if vn == "StringNotFound":
                c, i, t, f = v.a[2]
                tb = flds(t)[0]
                okk = c is comp and i is ident and (tb is tag or mapbase(tb) is tag or contains(t, tag))
                ctx.ob(key + ":notfound:names", okk, w, "the not-found report must name the requested component, identifier and language; names %s" % show(v))
                ctx.ob(key + ":notfound:absent", absent(p, selfarg, comp, ident, tag), w, "not-found is reported although the provider was not asked or had a string")
                if f is TRUE:
                    dl = any(isinstance(q, T) and q.op == "discr" and x == 0 and pcall(flds(q.a[0])[0], "string") and default_of(flds(q.a[0])[0].a[1][3], comp) for q, x in p.facts.items())
                    ctx.ob(key + ":notfound:fallback", fbv == 1 and dl, w, "a not-found report claiming that fallback was tried requires that the default language was asked")
                elif f is FALSE:
                    ctx.ob(key + ":notfound:nofallback", fbv == 0, w, "a not-found report claiming no fallback requires that fallback was not in force")
                else:
                    ctx.ob(key + ":notfound:flag", f is fb, w, "fallback flag of the report is %s" % show(f))
                kinds.add("nf%s" % show(f))
            elif vn == "Provider":
                b, l = flds(v.a[2][0])
                ctx.ob(key + ":provider", b.op == "call" and b.a[0].startswith(PROV) and l == [ERR0], w, "a provider failure must be passed on: %s" % show(v))
                kinds.add("provider")
            elif vn == "Formatter":
                b, l = flds(v.a[2][0])
                okk = l == [ERR0] and b.op == "call" and (b.a[0] == FNEW or b.a[0] == FFMT)
                if okk and b.a[0] == FNEW:
                    pp = payload_pair(b.a[1][1], b.a[1][2])
                    okk = pp is not None and pp[0] is comp and pp[1] is ident and lang_ok(pp[2], False)[0]
                    d = p.facts.get(mk("discr", mk("fld", b, ERR0), FERR))
                    ng = [int(x[1]) for x in P.adts[FERR]["variants"] if x[0] == "NoGrammar"]
                    okk = okk and not (isinstance(d, int) and d in ng)
                ctx.ob(key + ":formatter", isf and okk, w, "a formatting failure must come from this request's pattern: %s" % show(v))
                kinds.add("formatter")
            elif vn == "CacheEntry" and not isf:
                # documented: a string cached as a formatter cannot be given as literal
                okk = v.a[2][0] is comp and v.a[2][1] is ident
                ent = [q for q, x in p.facts.items() if isinstance(q, T) and q.op == "discr" and q.a[1] == CD]
                good = False
                for q in ent:
                    b, keys = chain(q.a[0], new_roots(p))
                    langs = [x for x in keys if x is not comp and x is not ident]
                    if sorted(roles(keys, comp, ident, langs)) == ["L", "c", "i"] and len(langs) == 1 and lang_ok(langs[0], True)[0]:
                        dn = [x[0] for x in P.adts[CD]["variants"] if int(x[1]) == p.facts[q]]
                        good = dn == ["Formatter"]
                ctx.ob(key + ":cacheentry", okk and good, w, "the cache refusal requires that this very string is cached for formatting")
            else:
                # an unreachable defensive branch: infeasible when the entry was just stored on this path
                ctx.ob(key + ":error", False, w, "unexpected failure %s" % show(v))
        else:
            ctx.ob(key + ":result", False, w, "unrecognised result %s" % show(v))
    need = {"raw", "cached", "nf0", "nf1", "provider"} | ({"fmt", "cachedfmt", "formatter"} if isf else set())
    ctx.ob(key + ":complete", need <= kinds, w, "some documented outcomes are no longer produced: missing %s" % sorted(need - kinds))
    # every returned Ok/Err decided by the provider's answer for the tag: when the provider has a string, no not-found
    for p in ps:
        if p.kind != "ret": continue
        k, v = split_result(p)
        for q, x in p.facts.items():
            if isinstance(q, T) and q.op == "discr" and q.a[1] == RES and x == 1:
                b, l = flds(q.a[0])
                if not l and b.op == "call" and b.a[0].startswith(PROV):
                    ctx.ob(key + ":errpass", k == "err" and contains(v, mk("fld", b, ERR0)), w, "a failure of the provider is swallowed")


def subst(t, m):
    """Replace whole subterms."""
    if t in m: return m[t]
    for k, v in m.items():
        t = rebase(t, k, v)
    return t


def fields(P, adt, v):
    """label -> value of a constructed struct."""
    out = {}
    for i, f in enumerate(P.adts[adt]["variants"][0][2]): out["%s.%s" % (adt, f[0])] = v.a[2][i]
    return out


def cellval(v):
    return v.a[1] if v.op == "cell" else v


def noise(p):
    """Alignment and null assertions the compiler adds to raw allocations."""
    return p.kind == "panic" and isinstance(p.info[0], str) and ("Misaligned" in p.info[0] or "NullPointer" in p.info[0])


def c11(ctx):
    for cfg in CFGS:
        P = ctx.program(cfg)
        cells = deflt_cells(ctx, cfg)
        if cells is None: continue
        me = mk("arg", "self")
        rd = lrun(ctx, cfg, LOC + "::defaults")
        rs = lrun(ctx, cfg, LOC + "::script_data_for_language_tag")
        rq = lrun(ctx, cfg, LOC + "::script_data")
        rl = lrun(ctx, cfg, LOC + "::default_language")
        rn = lrun(ctx, cfg, LOC + "::try_new")
        if None in (rd, rs, rq, rl, rn): continue
        for nm in ("language", "fallback", "caching"):
            ctx.ob("%s:setter:%s" % (cfg, nm), nm in cells, rd[0].where(), "no setting is changed when a new default %s is given" % nm)
        if len(cells) < 3: continue
        # readers
        fn, e, a, ps = rl
        lang = rebase(cells["language"], me, a[0])
        for p in ps:
            if p.kind == "ret": ctx.ob("%s:default_language" % cfg, p.value is lang, fn.where(), "default_language must report the current default language, not %s" % show(p.value))
        fn, e, a, ps = rq
        scell = None
        for p in ps:
            if p.kind != "ret": continue
            ok_ = p.value.op == "inner"
            ctx.ob("%s:script_data" % cfg, ok_ and (scell is None or scell is p.value), fn.where(), "script_data must report the stored script data, not %s" % show(p.value))
            if ok_: scell = rebase(p.value, a[0], me)
        if scell is None: continue
        sfn, se, sa, sps = rs
        summ = [(p.facts, p.value) for p in sps if p.kind == "ret"]

        def script_ok(p, v, m):
            """v is the script data of the language on path p (m maps the summary's terms to this path's)."""
            for facts, val in summ:
                if simp(subst(val, m), P) is not simp(v, P): continue
                good = True
                pf = {simp(k, P): y for k, y in p.facts.items() if isinstance(k, T)}
                for k, x in facts.items():
                    if isinstance(k, T) and not k.op.startswith("const"):
                        y = pf.get(simp(subst(k, m), P))
                        if y is not None and isinstance(x, int) and isinstance(y, int) and x != y: good = False
                        if y is None and any(z in sa for z in subterms(k)): good = good and k.op == "eq"
                if good: return True
            return False

        # setter
        fn, e, a, ps = rd
        other = {rebase(c, me, a[0]) for c in cells.values()} | {rebase(scell, me, a[0])}
        for p in ps:
            if p.kind != "ret": continue
            k, v = split_result(p)
            ctx.ob("%s:defaults:ok" % cfg, k == "ok", fn.where(), "changing the defaults must succeed: %s" % show(p.value))
            for i, nm in ((1, "language"), (2, "fallback"), (3, "caching")):
                c = rebase(cells[nm], me, a[0])
                d = p.facts.get(mk("discr", a[i], OPT))
                v = p.store.get(("o", c))
                if d == 1: ctx.ob("%s:defaults:%s" % (cfg, nm), v is mk("fld", a[i], SOME0), fn.where(), "the given default %s is not what is stored: %s" % (nm, show(v) if v is not None else "unchanged"))
                elif d == 0: ctx.ob("%s:defaults:keep:%s" % (cfg, nm), v is None or v is c, fn.where(), "the default %s is changed although none was given" % nm)
                else: ctx.ob("%s:defaults:%s?" % (cfg, nm), v is None or v is c, fn.where(), "the default %s is changed without looking at whether one was given" % nm)
            d = p.facts.get(mk("discr", a[1], OPT))
            v = p.store.get(("o", rebase(scell, me, a[0])))
            if d == 1:
                ctx.ob("%s:defaults:script" % cfg, v is not None and script_ok(p, v, {sa[0]: a[0], sa[1]: mk("fld", a[1], SOME0)}), fn.where(),
                       "after changing the default language, the script data must be that of the new language: %s" % (show(v) if v is not None else "unchanged"))
            else:
                ctx.ob("%s:defaults:keep:script" % cfg, v is None or v is rebase(scell, me, a[0]), fn.where(), "the script data is changed although no language was given")
            for (root, v) in p.store.items():
                if root[0] == "o" and contains(root[1], a[0]) and root[1] not in other and v is not root[1]:
                    ctx.ob("%s:defaults:other" % cfg, False, fn.where(), "changing the defaults also changes %s" % show(root[1]))
        # constructor
        fn, e, a, ps = rn
        n = 0
        for p in ps:
            if p.kind != "ret": continue
            k, v = split_result(p)
            if k != "ok" or v.op != "adt": continue
            n += 1
            fs = fields(P, LOC, v)
            m0 = {mk("fld", me, l): x for l, x in fs.items()}

            def held(c):
                """Value the constructor puts behind self cell c."""
                return cellval(subst(c.a[0] if c.op == "inner" else c, m0))
            for i, nm in ((4, "fallback"), (5, "caching")):
                ctx.ob("%s:new:%s" % (cfg, nm), held(cells[nm]) is a[i], fn.where(), "the initial default %s must be the one given: %s" % (nm, show(held(cells[nm]))))
            tag = held(cells["language"])
            b, l = flds(tag)
            if tag.op == "adt" or b.op == "call" or True:
                ctx.ob("%s:new:language" % cfg, from_registry(tag, a[1], a[6]), fn.where(), "the initial default language must be the registry's tag for the given text: %s" % show(tag))
            m = {mk("fld", sa[0], l): x for l, x in fs.items()}
            m[sa[1]] = tag
            sv = held(scell)
            vals = [simp(subst(x, m), P) for _, x in summ]
            ctx.ob("%s:new:script" % cfg, simp(sv, P) in vals, fn.where(), "the initial script data must be that of the initial language: %s" % show(sv))
            for acc, arg in (("localisation_provider", 2), ("language_tag_registry", 1), ("command_registry", 3), ("icu_data_provider", 0)):
                ra = lrun(ctx, cfg, LOC + "::" + acc)
                if ra is None: continue
                for q in ra[3]:
                    x = subst(q.value, {mk("fld", ra[2][0], l): y for l, y in fs.items()})
                    ctx.ob("%s:accessor:%s" % (cfg, acc), x is a[arg], ra[0].where(), "%s must be what the localiser was created with, not %s" % (acc, show(x)))
            ra = lrun(ctx, cfg, LOC + "::grammar")
            if ra is not None:
                for q in ra[3]:
                    x = subst(q.value, {mk("fld", ra[2][0], l): y for l, y in fs.items()})
                    ctx.ob("%s:accessor:grammar" % cfg, x.op == "c" and sorted(str(x.a[1])) == sorted(GRAMMAR), ra[0].where(), "the grammar must be the four pattern characters, not %s" % show(x))
        ctx.ob("%s:new" % cfg, n > 0, fn.where(), "no successful construction found")
        caching_rule(ctx, cfg, P, cells)


def simp(t, P):
    """Without call sites, and with projections of constructed structs carried out."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[0], str) and t[0].startswith("/"): return ("/", 0)
            return tuple(simp(x, P) for x in t)
        return t
    a = tuple(simp(x, P) if isinstance(x, (T, tuple)) else x for x in t.a)
    t = t if a == t.a else mk(t.op, *a)
    if t.op == "fld" and t.a[0].op == "adt" and t.a[1].startswith(t.a[0].a[0] + "."):
        n = t.a[1].split(".")[-1]
        for i, f in enumerate(P.adts[t.a[0].a[0]]["variants"][0][2]):
            if f[0] == n: return t.a[0].a[2][i]
    return t


def from_registry(tag, reg, text):
    """Structurally: obtained from the registry's stores under the text, or built from its canonical form."""
    return contains(tag, text) and (contains(tag, reg) or any(x.op == "call" and "canonicalize" in x.a[0] for x in subterms(tag)))


def caching_rule(ctx, cfg, P, cells):
    me = mk("arg", "self")
    for meth in ("format", "literal", "format_with_defaults", "literal_with_defaults"):
        r = lrun(ctx, cfg, LOC + "::" + meth)
        if r is None: continue
        fn, e, a, ps = r
        isf = meth.startswith("format")
        values = a[3] if isf else None
        opt = None if meth.endswith("defaults") else (a[6] if isf else a[5])
        cell = rebase(cells["caching"], me, a[0])
        for p in ps:
            if p.kind != "ret": continue
            ca = setting_value(p, opt, cell)
            cv = p.facts.get(ca) if ca is not None else None
            ins = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("Map::insert") and ev.args[2].op == "adt" and ev.args[2].a[0] == CD]
            if ins: ctx.ob("%s:%s:cacheoff" % (cfg, meth), cv == 1, ins[0].where(), "a string is cached although caching is not in force for this request")
            k, v = split_result(p)
            if k != "ok": continue
            an = answer(p, v, a[0], values, e)
            if an is None or an[0] not in ("raw", "fmt"): continue
            if cv == 1:
                plain = an[0] == "raw" and nogrammar(p, ps, v.a[0][0], a[0], P)
                if plain or an[0] == "fmt": ctx.ob("%s:%s:cacheon" % (cfg, meth), bool(ins), fn.where(), "caching is in force but the answer is not kept")


LDATA = "i18n_utility::LocalisationData"
PV = "i18n_utility::PlaceholderValue"


def takes_data(fn):
    for i in range(1, fn.argc + 1):
        t = fn.types[fn.locals[i]]
        while t[0] == "ref": t = fn.types[t[1]]
        if t[0] == "adt" and t[1] == LDATA: return True
        if t[0] == "param" or "dyn" in t[0] or t[0] == "impl": return True
    return False


def rec12(fn):
    return 0 if takes_data(fn) else 1


def pv_variant(P, p, t):
    d = p.facts.get(mk("discr", t, PV))
    if t.op == "adt" and t.a[0] == PV: return P.adts[PV]["variants"][t.a[1]][0]
    vs = {int(x[1]): x[0] for x in P.adts[PV]["variants"]}
    if isinstance(d, frozenset):
        rest = set(vs) - set(d)
        return rest and ("not", {vs[x] for x in d if x in vs})
    return vs.get(d)


def c12(ctx):
    for cfg in CFGS:
        P = ctx.program(cfg)
        cells = deflt_cells(ctx, cfg)
        if cells is None or len(cells) < 3: continue
        me = mk("arg", "self")
        for meth in ("format_localisation_data", "format_localisation_data_with_defaults", "format_error", "format_error_with_defaults"):
            r = lrun(ctx, cfg, LOC + "::" + meth, recurse=rec12)
            if r is None: continue
            fn, e, a, ps = r
            w = fn.where()
            key = "%s:%s" % (cfg, meth)
            selfarg = a[0]
            data = a[1]
            if "error" in meth:
                cs = {ev.ret for p in ps for ev in p.events if ev.kind == "call" and ev.name.endswith("::localisation_data")}
                okk = len(cs) == 1 and all(ev.args[0] is a[1] for p in ps for ev in p.events if ev.kind == "call" and ev.name.endswith("::localisation_data"))
                ctx.ob(key + ":data", okk, w, "an error must be localised from its own localisation data")
                if not okk: continue
                data = cs.pop()
            wd = meth.endswith("defaults")
            fbc, cac = rebase(cells["fallback"], me, selfarg), rebase(cells["caching"], me, selfarg)
            tag = rebase(cells["language"], me, selfarg) if wd else a[2]
            fbo, cao = (None, None) if wd else (a[3], a[4])
            comp, ident, vals = (mk("fld", data, "%s.%s" % (LDATA, n)) for n in ("component", "identifier", "values"))
            lit, fmt, bymap = [], [], {}
            for p in ps:
                if p.kind == "panic": fmt.append(p); continue
                d = p.facts.get(mk("discr", vals, OPT))
                if d == 0: lit.append(p)
                elif d == 1: fmt.append(p)
                elif p.kind == "ret": ctx.ob(key + ":values", False, w, "the answer does not depend on whether values are present")
            nestederr = []
            for p in fmt:
                # values given to the formatting request
                k, v = split_result(p) if p.kind == "ret" else (None, None)
                if k == "err" and flds(v)[0].op == "call" and nested(P, p, flds(v)[0], selfarg, data, tag, fbo, cao, fbc, cac, vals) and flds(v)[1] == [ERR0]:
                    nestederr.append(p)
                    continue
                m = [ev.args[2] for ev in p.events if ev.kind == "call" and ev.name == FFMT]
                bymap.setdefault(m[-1] if m else None, []).append(p)
            ctx.ob(key + ":nested:error", bool(nestederr), w, "a failing nested message must make the whole request fail")
            maps = [m for m in bymap if m is not None]
            ctx.ob(key + ":map", len(maps) >= 1, w, "no formatting request is made for data with values")
            # the map: one entry per entry of the data's values
            src = mk("fld", vals, SOME0)
            for m in maps:
                map_entries(ctx, P, key, w, ps, m, src, selfarg, data, tag, fbo, cao, fbc, cac, vals)
            if lit: judge(ctx, cfg, P, meth + ":literal", fn, e, lit, selfarg, comp, ident, None, tag, fbo, fbc)
            allf = [p for p in fmt if p not in nestederr]
            if maps: judge(ctx, cfg, P, meth + ":format", fn, e, allf, selfarg, comp, ident, maps[0] if len(maps) == 1 else maps, tag, fbo, fbc)


def nested(P, p, call, selfarg, data, tag, fbo, cao, fbc, cac, vals):
    """call localises the structured data found in an entry of vals with this request's settings. Returns the entry's value."""
    evs = [ev for ev in p.events if ev.kind == "rec" and ev.ret is call]
    if not evs: return None
    args = list(evs[0].args)
    if not args or args[0] is not selfarg: return None
    fb, ca = setting_value(p, fbo, fbc), setting_value(p, cao, cac)
    inner = None
    want = ["data", "tag", "fb", "ca"]
    got = []
    for x in args[1:]:
        if x.op == "adt" and x.a[0] == OPT and len(x.a[2]) == 1: x = x.a[2][0]
        b, l = flds(x)
        if l and l[-1] == PV + "@LocalisationData.0":
            inner = mk("fld", b, l[0]) if False else x.a[0]
            got.append("data")
        elif tagmatch(x, tag): got.append("tag")
        elif same_setting(p, x, fb, fbo): got.append("fb")
        elif same_setting(p, x, ca, cao): got.append("ca")
        else: return None
    if got == want: return inner
    # settings given as constants or equal on this path
    return None


def same_setting(p, x, cur, opt):
    if x is cur or (opt is not None and x is opt): return True
    if x.op == "c" and p.facts.get(cur) == x.a[1] and isinstance(x.a[1], int): return True
    return False


def map_entries(ctx, P, key, w, ps, m, src, selfarg, data, tag, fbo, cao, fbc, cac, vals):
    b = mapbase(m)
    ctx.ob(key + ":map:fresh", b.op == "mapnew", w, "values handed to the formatter must be built afresh from the data: %s" % show(m))
    lids = set()
    t = m
    while t.op == "upd":
        if t.a[1] == "loop": lids.add(t.a[2])
        else: ctx.ob(key + ":map:extra", False, w, "the values get an entry that is not in the data: %s" % show(t))
        t = t.a[0]
    ctx.ob(key + ":map:loop", len(lids) == 1, w, "the values must be built in one pass over the data's values")
    for lid in lids:
        n = 0
        for p in ps:
            if p.kind != "loop" or p.info != lid: continue
            n += 1
            idx = max([i for i, ev in enumerate(p.events) if ev.kind == "loop" and (ev.ctx, ev.extra) == lid] or [0])
            evs = p.events[idx:]
            nx = [ev for ev in evs if ev.kind == "next" and ev.loops and ev.loops[-1] == lid]
            ins = [ev for ev in evs if ev.kind == "call" and ev.name.endswith("Map::insert") and mapbase(ev.args[0]) is b]
            if len(nx) != 1 or nx[0].args[0] is not src or nx[0].name not in ("into_iter", "iter") or len(ins) != 1:
                ctx.ob(key + ":map:each", False, w, "every entry of the data's values must give exactly one value (%d insertions)" % len(ins))
                continue
            el = nx[0].ret
            ek, evv = tupfld(el, 0), tupfld(el, 1)
            k_, v_ = ins[0].args[1], ins[0].args[2]
            ctx.ob(key + ":map:key", k_ is ek, ins[0].where(), "a value must keep its placeholder name: %s" % show(k_))
            vn = pv_variant(P, p, evv)
            if vn == "LocalisationData":
                okk = False
                if v_.op == "adt" and v_.a[0] == PV and variant_name(P, v_) == "Localised":
                    (b0, l0), (b1, l1) = flds(v_.a[2][0]), flds(v_.a[2][1])
                    if b0 is b1 and b0.op == "call" and l0 and l1 and l0[0] == OK0 and l1[0] == OK0 and l0[-1].endswith(".0") and l1[-1].endswith(".1"):
                        okk = nested(P, p, b0, selfarg, data, tag, fbo, cao, fbc, cac, vals) is evv
                ctx.ob(key + ":map:nested", okk, ins[0].where(),
                       "nested data must be replaced by its own localised text and language, localised with the same language and settings: %s" % show(v_))
            elif vn is None: ctx.ob(key + ":map:kind", False, w, "nested data is not told apart from other values")
            else:
                ctx.ob(key + ":map:plain", v_ is evv and (not isinstance(vn, tuple) or "LocalisationData" in vn[1]), ins[0].where(), "a value that is not nested data must be passed on unchanged: %s" % show(v_))
        ctx.ob(key + ":map:iter", n >= 2, w, "no pass over the data's values found")


def tupfld(el, i):
    return el.a[0][i] if el.op == "tup" else mk("fld", el, "tuple.%d" % i)
