"""Rules for crates/lexer: the token iterator, by induction over its steps."""
from common import *

IT = "i18n_lexer::LexerIterator"
TOK = "i18n_lexer::Token"
PROV = "i18n_lexer::IcuDataProvider"
TT = "i18n_lexer::TokenType"
NEXT = "<i18n_lexer::LexerIterator as Iterator>::next"
CONTAINS = ("icu_properties::CodePointSetDataBorrowed::contains", "icu_properties::CodePointSetData::contains")


class Lex:
    """Everything the three lexer rules need, computed once per configuration."""
    def __init__(s, ctx, cfg):
        s.ok = False
        s.cfg = cfg
        P = s.P = ctx.program(cfg)
        ad = P.adts.get(TT)
        if not ad or not P.adts.get(TOK) or not P.adts.get(IT):
            ctx.ob("%s:types" % cfg, False, "crates/lexer/src/lexer.rs", "token types not found")
            return
        s.cls = {v[0]: i for i, v in enumerate(ad["variants"])}
        s.tokf = [f[0] for f in P.adts[TOK]["variants"][0][2]]
        s.itf = [f[0] for f in P.adts[IT]["variants"][0][2]]
        # accessor terms of the data provider
        s.acc = {}
        for n in ("white_space", "syntax", "grapheme_segmenter"):
            r = run(ctx, cfg, PROV + "::" + n)
            if r is None: return
            fn, e, a, ps = r
            if len(ps) != 1 or ps[0].kind != "ret":
                ctx.ob("%s:accessor:%s" % (cfg, n), False, fn.where(), "accessor is not a plain field read")
                return
            s.acc[n] = (a[0], ps[0].value)
        ctx.ob("%s:accessors-distinct" % cfg, len({x[1] for x in s.acc.values()}) == 3, "crates/lexer/src/icu.rs",
               "white space, syntax and segmenter accessors must return three different data")
        r = run(ctx, cfg, IT + "::try_new")
        if r is None: return
        s.nfn, s.ne, s.nargs, s.nps = r
        r = run(ctx, cfg, NEXT)
        if r is None: return
        s.fn, s.e, s.args, s.ps = r
        s.ok = True

    def access(s, name, prov):
        a, t = s.acc[name]
        return rebase(t, a, prov)

    def classify(s, p, ch, prov, gram):
        """Token class of character ch as decided by the facts of path p: name or None."""
        ws = sy = gr = None
        for k, v in p.facts.items():
            if not isinstance(k, T) or not isinstance(v, int): continue
            if k.op == "call" and k.a[0] in CONTAINS and len(k.a[1]) == 2 and k.a[1][1] is ch:
                d = k.a[1][0]
                while d.op == "call" and d.a[0].endswith("::as_borrowed"): d = d.a[1][0]
                if d is s.access("white_space", prov): ws = v
                elif d is s.access("syntax", prov): sy = v
            elif k.op == "call" and k.a[0] in ("core::slice::contains", "core::str::contains") and len(k.a[1]) == 2 and k.a[1][0] is gram and k.a[1][1] is ch:
                gr = v
            elif k.op == "eq" and ch in k.a:
                pass
        if gr is None:
            # explicit search loop over the grammar: an element equal to ch was found / search exhausted
            for e in p.events:
                if e.kind == "next" and mapbase(e.args[0]) is gram and same(p, e.ret, ch): gr = 1
                if e.kind == "exhausted" and mapbase(e.args[0]) is gram and gr is None: gr = 0
        if sy == 1:  # Pattern_Syntax and Pattern_White_Space are disjoint Unicode properties
            return None if gr is None else ("Grammar" if gr == 1 else "Syntax")
        if ws == 1: return "WhiteSpace"
        if ws == 0 and sy == 0: return "Identifier"
        return None


def rebase(t, frm, to):
    if t is frm: return to
    if not isinstance(t, T): return tuple(rebase(x, frm, to) for x in t) if isinstance(t, tuple) else t
    a = tuple(rebase(x, frm, to) if isinstance(x, (T, tuple)) else x for x in t.a)
    return t if a == t.a else mk(t.op, *a)


def tokfields(L, t):
    return dict(zip(L.tokf, t.a[2])) if t.op == "adt" and t.a[0] == TOK else None


def base(t):
    """The only variable of a linear term."""
    _, parts = lin_parts(t)
    return next(iter(parts)) if len(parts) == 1 else t


def roles(ctx, L):
    """Which iterator field plays which part, read off the token that `next` emits when it stops at a character."""
    self_ = L.args[0]
    mids, ends, nones, conts, panics = [], [], [], [], []
    for p in L.ps:
        if p.kind == "loop":
            conts.append(p)
            continue
        if p.kind == "panic":
            # a token's start never lies behind the cursor: part of the induction over positions (group "position")
            if p.info[0] == "underflow" and field_name(base(p.info[1][1]), self_) and any(x is self_ for x in subterms(p.info[1][0])): continue
            panics.append(p)
            continue
        k, v = split_option(p)
        if k == "none": nones.append(p)
        elif k == "some":
            nx = [e for e in p.events if e.kind in ("next", "exhausted") and mapbase(e.args[0]).op == "fld" and mapbase(e.args[0]).a[0] is self_]
            if nx and nx[-1].kind == "exhausted": ends.append(p)
            else: mids.append(p)
        else:
            ctx.ob("%s:next:value" % L.cfg, False, L.fn.where(), "unrecognised return %s" % show(p.value))
    return mids, ends, nones, conts, panics


def field_name(t, self_):
    """Name of the iterator field whose (pre-state) value t is."""
    if t.op == "hv" and len(t.a[1][1]) == 1 and t.a[1][0] == ("o", self_): return t.a[1][1][0][3].split(".")[-1]
    if t.op == "upd": return field_name(t.a[0], self_)
    if t.op == "fld" and t.a[0] is self_: return t.a[1].split(".")[-1]
    return None


def analyse(ctx, cfg, want):
    """Runs the induction and records the obligations whose group is in `want`."""
    def ob(group, key, okk, where, msg):
        if group in want: ctx.ob("%s:%s:%s" % (cfg, group, key), okk, where, msg)
    L = Lex(ctx, cfg)
    if not L.ok: return
    P = L.P
    self_ = L.args[0]
    wh = L.fn.where()
    mids, ends, nones, conts, panics = roles(ctx, L)
    for p in panics: ob("total", "panic", False, p.info[2].where(p.info[3]), "advancing the token iterator can panic: %s" % p.info[0])
    if not mids or not ends:
        ctx.ob("%s:shape" % cfg, False, wh, "no path emits a token at a character (%d) or at the end (%d)" % (len(mids), len(ends)))
        return
    tf = tokfields(L, split_option(mids[0])[1])
    te = tokfields(L, split_option(ends[0])[1])
    if tf is None or te is None:
        ctx.ob("%s:shape" % cfg, False, wh, "emitted value is not a token")
        return
    R = {n: field_name(tf[k], self_) for n, k in (("S", "string"), ("K", "token_type"), ("TB", "start_byte"), ("TC", "start_character"), ("TG", "start_grapheme"))}
    ob("text", "roles", all(R.values()) and len(set(R.values())) == 5, wh, "an emitted token must report the pending text, type and start positions; got %s" % {k: show(v) for k, v in tf.items()})
    if not all(R.values()): return
    endb = te["end_byte"]
    LENF = field_name(endb, self_)
    src = None
    for p in conts + mids:
        for e in p.events:
            if e.kind == "next" and field_name(mapbase(e.args[0]), self_): src = field_name(mapbase(e.args[0]), self_)
    if src is None:
        ctx.ob("%s:source" % cfg, False, wh, "no character source field")
        return

    def pre(p, name):
        """Value of a field at the start of the current iteration (loop-head value)."""
        for t in [x for x in candidates.get(name, ()) ]:
            return t
        return mk("fld", self_, "%s.%s" % (IT, name))

    # loop-head value of each field: havocked term if the loop changes it
    candidates = {}
    for p in conts + mids + ends:
        vals = [p.value] if p.value is not None else []
        for e in p.events: vals += list(e.args) + ([e.ret] if isinstance(e.ret, T) else [])
        vals.append(post(L.e, p, self_))
        for v in vals:
            for t in subterms(v):
                if t.op == "hv":
                    n = field_name(t, self_)
                    if n: candidates.setdefault(n, [t])
    F = lambda n: pre(None, n)
    S, K, TB, TC, TG = (F(R[x]) for x in ("S", "K", "TB", "TC", "TG"))

    # character counter: a field advanced by one per character
    def fpost(p, name): return field_of(L.e, P, IT, post(L.e, p, self_), name)
    # ---- construction -------------------------------------------------------
    string, grammar, provider = L.nargs[:3]
    init = None
    for p in L.nps:
        if p.kind == "loop": continue
        empt = {k: p.facts.get(mk("eq", mk("len", t), cint(0))) for k, t in (("string", string), ("grammar", grammar))}
        if p.kind == "panic":
            nx = [e for e in p.events if e.kind in ("next", "exhausted") and contains(e.args[0], string)]
            feasible = not (empt["string"] == 0 and nx and nx[0].kind == "exhausted")
            ob("total", "new-panic", not feasible, p.info[2].where(p.info[3]), "building the token iterator can panic: %s" % p.info[0])
            continue
        k, v = split_result(p)
        if k == "err":
            nm = variant_name(P, v)
            good = (nm == "NoGrammar" and empt["grammar"] == 1) or (nm == "EmptyString" and empt["string"] == 1 and empt["grammar"] != 1)
            ob("total", "new-err", good, L.nfn.where(), "construction must fail only for an empty grammar or string, with the matching error: %s under %s" % (nm, empt))
            continue
        if k != "ok" or v.op != "adt" or v.a[0] != IT:
            ob("total", "new-shape", False, L.nfn.where(), "unrecognised construction %s" % show(v))
            continue
        ob("total", "new-nonempty", empt["string"] == 0 and empt["grammar"] == 0, L.nfn.where(), "an empty string or grammar must be refused")
        g = lambda n: field_of(L.ne, P, IT, v, n)
        nx = [e for e in p.events if e.kind == "next" and contains(e.args[0], string)]
        it = g(src)
        if it is not None and it.op == "iter" and it.a[0] == "skip" and it.a[2] is cint(1): it = it.a[1]
        okit = len(nx) == 1 and it is not None and it.op == "iter" and it.a[0] in ("src", "peekable", "fuse") and models.iter_base(it).a[1] is string and models.iter_base(it).a[2] == "char_indices"
        ob("text", "new-source", okit, L.nfn.where(), "the iterator must start with the first character taken and all the others pending: %s" % show(it))
        if not nx: continue
        el = nx[0].ret
        ch0 = mk("fld", el, "tuple.1")
        ob("text", "new-text", g(R["S"]) is mk("chr", ch0), L.nfn.where(), "the pending text must be the first character: %s" % show(g(R["S"])))
        ob("text", "new-bytes", g(R["TB"]) in (cint(0), mk("fld", el, "tuple.0")), L.nfn.where(), "first token must start at byte 0")
        ob("text", "new-chars", g(R["TC"]) is cint(0), L.nfn.where(), "first token must start at character 0")
        ob("text", "new-graphemes", g(R["TG"]) is cint(0), L.nfn.where(), "first token must start at grapheme 0")
        if LENF: ob("text", "new-length", g(LENF) is mk("len", string), L.nfn.where(), "the recorded length must be the byte length of the input: %s" % show(g(LENF)))
        # grammar characters of the argument
        gf = [n for n in L.itf if g(n) is mk("collect", mk("iter", "src", grammar, "chars")) or g(n) is grammar]
        pf = [n for n in L.itf if g(n) is provider]
        ob("class", "new-grammar", len(gf) == 1 and len(pf) == 1, L.nfn.where(), "the iterator must keep the given grammar and data provider")
        if len(gf) != 1 or len(pf) != 1: return
        L.gf, L.pf = gf[0], pf[0]
        c = None
        for gr in (g(gf[0]), grammar): c = c or L.classify(p, ch0, provider, gr)
        kk = g(R["K"])
        ob("class", "new-class", c is not None and variant_name(P, kk) == c, L.nfn.where(), "first character classified %s but recorded as %s" % (c, show(kk)))
        init = (p, v)
    if init is None:
        ctx.ob("%s:new" % cfg, False, L.nfn.where(), "no successful construction")
        return
    # offset of the character counter
    p0, v0 = init
    prov, gram = F(L.pf), F(L.gf)
    CC = None
    for n in L.itf:
        if n in R.values() or n in (src, LENF): continue
        iv = field_of(L.ne, P, IT, v0, n)
        if iv.op == "c" and iv.a[0] == "int" and n in candidates:
            if all(fpost(p, n) is add(F(n), cint(1)) for p in conts):
                CC = add(F(n), cint(1 - iv.a[1]))  # index of the character being examined (or count at the end)
    lenS = mk("len", S)
    cntS = [t for t in (mk("call", "iter.count", (mk("iter", "src", S, "chars"),), None),)]
    # grapheme count of the pending text
    def gcount(t):
        # (-1 + count(segment_str(segmenter, S)))
        c, parts = lin_parts(t)
        if c != -1 or len(parts) != 1: return False
        (x, k), = parts.items()
        if k != 1 or x.op != "call" or x.a[0] != "iter.count": return False
        b = models.iter_base(x.a[1][0]).a[1]
        return b.op == "call" and b.a[0].endswith("::segment_str") and b.a[1][1] is S and b.a[1][0] is L.access("grapheme_segmenter", prov)

    def emission(p, posn, end):
        t = tokfields(L, split_option(p)[1])
        w = "end" if end else "mid"
        if t is None:
            ob("text", w + "-token", False, wh, "not a token: %s" % show(p.value))
            return None
        ob("text", w + "-string", t["string"] is S, wh, "token text must be the pending text: %s" % show(t["string"]))
        ob("class", w + "-type", t["token_type"] is K, wh, "token type must be the pending type: %s" % show(t["token_type"]))
        ob("text", w + "-start", t["start_byte"] is TB and t["start_character"] is TC and t["start_grapheme"] is TG, wh, "token start positions")
        lb = t["length_bytes"]
        ob("text", w + "-length_bytes", lb is add(posn, TB, -1) or lb is lenS, wh, "length_bytes is %s" % show(lb))
        ob("text", w + "-end_byte", t["end_byte"] is posn or t["end_byte"] is add(TB, lb), wh, "end_byte is %s" % show(t["end_byte"]))
        lc = t["length_characters"]
        ob("text", w + "-length_characters", (CC is not None and lc is add(CC, TC, -1)) or lc in cntS, wh, "length_characters is %s" % show(lc))
        ob("text", w + "-length_graphemes", gcount(t["length_graphemes"]), wh, "length_graphemes is %s" % show(t["length_graphemes"]))
        return t

    for p in mids + conts:
        nx = [e for e in p.events if e.kind == "next" and field_name(mapbase(e.args[0]), self_) == src]
        ob("text", "one-per-step", len(nx) == 1, wh, "each step must consume exactly one character")
        if len(nx) != 1: continue
        el = nx[0].ret
        pos, ch = mk("fld", el, "tuple.0"), mk("fld", el, "tuple.1")
        c = L.classify(p, ch, prov, gram)
        line = L.fn.where(nx[0].line)
        ob("class", "decided", c is not None, line, "a path does not determine the class of the character: %s" % [show(k)[:80] for k in p.facts if isinstance(k, T)])
        if c is None: continue
        kf = p.facts.get(mk("discr", K, TT))
        samek = kf == L.cls[c]
        diffk = (isinstance(kf, int) and kf != L.cls[c]) or (isinstance(kf, frozenset) and L.cls[c] in kf)
        if p.kind == "loop":
            ob("class", "merge:" + c, c != "Grammar" and samek, line, "a %s character is appended to the pending token although it is not of the same class (or is grammar)" % c)
            ob("text", "append", fpost(p, R["S"]) is models.concat(S, mk("chr", ch)), line, "the character must be appended to the pending text: %s" % show(fpost(p, R["S"])))
            for r in ("K", "TB", "TC", "TG"):
                ob("text", "keep-" + r, fpost(p, R[r]) is F(R[r]), line, "pending %s changed while appending" % r)
        else:
            ob("class", "break:" + c, c == "Grammar" or diffk, line, "a token is cut before a %s character of the same class" % c)
            t = emission(p, pos, False)
            if t is None: continue
            ob("text", "restart-text", fpost(p, R["S"]) is mk("chr", ch), line, "the next pending text must be the character that ended the token: %s" % show(fpost(p, R["S"])))
            ob("class", "restart-type", variant_name(P, fpost(p, R["K"])) == c or (samek and fpost(p, R["K"]) is K), line, "the next pending type must be %s: %s" % (c, show(fpost(p, R["K"]))))
            ob("text", "restart-byte", fpost(p, R["TB"]) in (pos, add(TB, t["length_bytes"])), line, "next start byte: %s" % show(fpost(p, R["TB"])))
            ob("text", "restart-char", (CC is not None and fpost(p, R["TC"]) is CC) or fpost(p, R["TC"]) is add(TC, t["length_characters"]), line, "next start character: %s" % show(fpost(p, R["TC"])))
            ob("text", "restart-grapheme", fpost(p, R["TG"]) is add(TG, t["length_graphemes"]), line, "next start grapheme: %s" % show(fpost(p, R["TG"])))
            if CC is not None:
                for n in L.itf:
                    if n in candidates and F(n) in subterms(CC):
                        ob("text", "count-" + n, fpost(p, n) is add(F(n), cint(1)), line, "character counter must advance by one")
        for n in [x for x in (LENF, L.pf, L.gf) if x]:
            ob("text", "const-" + n, fpost(p, n) is F(n), line, "field %s must not change" % n)
    for p in ends:
        emission(p, endb if LENF else add(TB, lenS), True)
    ob("text", "end-length", LENF is not None or te["end_byte"] is add(TB, lenS), wh, "the last token must end at the length of the input: %s" % show(endb))
    # ---- end of iteration -----------------------------------------------------
    def again(p, label, expect_none):
        keep = {k: v for k, v in (p.facts if p is not None else {}).items() if isinstance(k, T) and k.op == "fld" and k.a[0] is self_}
        r = run(ctx, cfg, NEXT, facts=keep, store={("o", self_): post(L.e, p, self_)} if label != "new" else {("o", self_): v0})
        if r is None: return
        for q in r[3]:
            if q.kind != "ret": continue
            k, v = split_option(q)
            if label == "end" and any(e.kind == "next" and field_name(mapbase(e.args[0]), self_) == src for e in q.events): continue
            ob("total", "after-" + label, (k == "none") == expect_none, wh,
               ("the iterator must stay exhausted after its last token" if expect_none else "a token is pending but the iterator reports the end"))
    again(None, "new", False)
    for p in mids: again(p, "mid", False)
    for p in ends: again(p, "end", True)


def c06(ctx):
    for cfg in ("default", "sync"): analyse(ctx, cfg, ("text",))


SOURCES = {"white_space": ("pattern_white_space",), "syntax": ("pattern_syntax",), "grapheme_segmenter": ("GraphemeClusterSegmenter::new", "GraphemeClusterSegmenter::try_new")}


def project(P, t):
    """The value of a field of a value that was just put together."""
    if t.op != "fld": return t
    b = project(P, t.a[0])
    if b.op == "adt" and b.a[0] in P.adts and "@" not in t.a[1]:
        names = [f[0] for f in P.adts[b.a[0]]["variants"][b.a[1]][2]]
        n = t.a[1].split(".")[-1]
        if n in names: return project(P, b.a[2][names.index(n)])
    return mk("fld", b, t.a[1])


def data(ctx, cfg):
    """The data a lexer is given are the ones they are named after."""
    r = run(ctx, cfg, PROV + "::try_new")
    if r is None: return
    fn, e, a, ps = r
    for p in ps:
        if p.kind != "ret": continue
        if p.value.op != "adt" or p.value.a[1] != 0:
            ctx.ob("%s:data:failure" % cfg, any(x.op == "fld" and x.a[1] == ERR0 for x in subterms(p.value)), fn.where(), "compiled data are always there, but %s is returned" % show(p.value)[:200])
            continue
        got = p.value.a[2][0]
        for n, want in list(SOURCES.items()) + [("data_provider", None)]:
            r = run(ctx, cfg, PROV + "::" + n)
            if r is None: return
            v = {q.value for q in r[3] if q.kind == "ret"}
            v = project(e.P, rebase(v.pop(), r[2][0], got))
            if want is None: ctx.ob("%s:data:%s" % (cfg, n), v is a[0], fn.where(), "the choice of data must be kept: %s" % show(v)[:200])
            else:
                calls = {x.a[0].split("::", 1)[1] for x in subterms(v) if x.op == "call"}
                others = [w for m, ws in SOURCES.items() if m != n for w in ws]
                ctx.ob("%s:data:%s" % (cfg, n), any(c.endswith(w) for c in calls for w in want) and not any(c.endswith(w) for c in calls for w in others), fn.where(),
                       "%s must come from %s of Unicode: %s" % (n, want[0], show(v)[:200]))


def c07(ctx):
    for cfg in ("default", "sync"):
        analyse(ctx, cfg, ("class",))
        data(ctx, cfg)


def c08(ctx):
    for cfg in ("default", "sync"): analyse(ctx, cfg, ("total",))
