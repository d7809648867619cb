"""Script data: what is answered for every script, against ISO 15924 and the Unicode Character Database."""
from common import *
from localiser import LOC, lrun, noise, fields


SDATA = "i18n_utility::ScriptData"
MAXIMIZE = "icu_locid_transform::LocaleExpander::maximize"

# Registered codes (ISO 15924), the ones Unicode and CLDR know and those registered since.
REGISTERED = frozenset("""
    Adlm Afak Aghb Ahom Arab Aran Armi Armn Avst Bali Bamu Bass Batk Beng Berf Bhks Blis Bopo Brah Brai Bugi
    Buhd Cakm Cans Cari Cham Cher Chis Chrs Cirt Copt Cpmn Cprt Cyrl Cyrs Deva Diak Dogr Dsrt Dupl Egyd Egyh
    Egyp Elba Elym Ethi Gara Geok Geor Glag Gong Gonm Goth Gran Grek Gujr Gukh Guru Hanb Hang Hani Hano Hans
    Hant Hatr Hebr Hira Hluw Hmng Hmnp Hntl Hrkt Hung Inds Ital Jamo Java Jpan Jurc Kali Kana Kawi Khar Khmr
    Khoj Kits Knda Kore Kpel Krai Kthi Lana Laoo Latf Latg Latn Leke Lepc Limb Lina Linb Lisu Loma Lyci Lydi
    Mahj Maka Mand Mani Marc Maya Medf Mend Merc Mero Mlym Modi Mong Moon Mroo Mtei Mult Mymr Nagm Nand Narb
    Nbat Newa Nkgb Nkoo Nshu Ogam Olck Onao Orkh Orya Osge Osma Ougr Palm Pauc Pelm Perm Phag Phli Phlp Phlv
    Phnx Piqd Plrd Prti Psin Ranj Rjng Rohg Roro Runr Samr Sara Sarb Saur Seal Sgnw Shaw Shrd Shui Sidd Sidt
    Sind Sinh Sogd Sogo Sora Soyo Sund Sunu Sylo Syrc Syre Syrj Syrn Tagb Takr Tale Talu Taml Tang Tavt Tayo
    Telu Teng Tfng Tglg Thaa Thai Tibt Tirh Tnsa Todr Tols Toto Tutg Ugar Vaii Visp Vith Wara Wcho Wole Xpeo
    Xsux Yezi Yiii Zanb Zinh Zmth Zsye Zsym Zxxx Zyyy Zzzz
""".split())

# Per script: direction that must be among those given / those that may be given, kinds of writing it may be called,
# "-" written today, "+" no longer written, "?" not judged.
# Lower-case l, r: lines from top to bottom, text left to right, right to left (Unicode's Bidi_Class of its letters);
# L, R: the same with lines from bottom to top; v, m: text from top to bottom, lines from the right, from the left;
# V, M: text from bottom to top. Kinds: Alphabetic, aBugida, abJad, Syllabic, Logographic, Ideographic, X special.
REFERENCE = """
    Adlm r/r A -; Aghb l/l A +; Ahom l/l B ?; Arab r/r J -; Armi r/r J +; Armn l/l A -
    Avst r/r A +; Bali l/l B -; Bamu l/l SL ?; Bass l/l A ?; Batk l/l B -; Beng l/l B -
    Bhks l/l B +; Bopo l/lr AS -; Brah l/l B +; Brai l/l AX -; Bugi l/l B -; Buhd l/l B ?
    Cakm l/l B -; Cans l/l BS -; Cari l/lr A +; Cham l/l B -; Cher l/l S -; Chrs r/r J +
    Copt l/l A ?; Cpmn l/l S +; Cprt r/r S +; Cyrl l/l A -; Cyrs l/l A ?; Deva l/l B -
    Diak l/l B +; Dogr l/l B ?; Dsrt l/l A ?; Dupl l/l XA ?; Egyp l/lr L +; Elba l/l A +
    Elym r/r J +; Ethi l/l BS -; Gara r/r A ?; Geok l/l A ?; Geor l/l A -; Glag l/l A +
    Gong l/l B ?; Gonm l/l BA ?; Goth l/l A +; Gran l/l B ?; Grek l/lr A -; Gujr l/l B -
    Gukh l/l B ?; Guru l/l B -; Hanb l/lrvm LI ?; Hang l/vlm AS -; Hani l/vl LI -; Hano l/LRl B ?
    Hans l/vl LI -; Hant l/vl LI -; Hatr r/r J +; Hebr r/r J -; Hira l/vl S -; Hluw l/lrm LS +
    Hmng l/l SAB ?; Hmnp l/l SA -; Hrkt l/vl S -; Hung r/r A +; Ital l/rl A +; Jamo l/vl A ?
    Java l/l B -; Jpan l/vl SLI -; Kali l/l AB -; Kana l/vl S -; Kawi l/l B ?; Khar r/r B +
    Khmr l/l B -; Khoj l/l B ?; Kits v/v LS +; Knda l/l B -; Kore l/vlm AL -; Krai l/l BA ?
    Kthi l/l B ?; Lana l/l B -; Laoo l/l B -; Latf l/l A ?; Latg l/l A ?; Latn l/l A -
    Lepc l/l B -; Limb l/l B -; Lina l/l S +; Linb l/l S +; Lisu l/l AB -; Lyci l/l A +
    Lydi r/r A +; Mahj l/l B ?; Maka l/l B ?; Mand r/r AJ ?; Mani r/r JA +; Marc l/l B +
    Medf l/l A ?; Mend r/r S -; Merc r/r BA +; Mero r/r BA +; Mlym l/l B -; Modi l/l B ?
    Mong m/ml A -; Mroo l/l A ?; Mtei l/l B -; Mult l/l B ?; Mymr l/l B -; Nagm l/l A ?
    Nand l/l B ?; Narb r/r J +; Nbat r/r J +; Newa l/l B ?; Nkoo r/r A -; Nshu v/v S ?
    Ogam l/Ll A +; Olck l/l A -; Onao l/l A ?; Orkh r/r A +; Orya l/l B -; Osge l/l A -
    Osma l/l A ?; Ougr r/mr AJ +; Palm r/r J +; Pauc l/l AB ?; Perm l/l A +; Phag m/m AB +
    Phli r/r J +; Phlp r/r J +; Phlv r/r J +; Phnx r/r J +; Plrd l/l BA -; Prti r/r J +
    Rjng l/l B ?; Rohg r/r A -; Runr l/lr A +; Samr r/r J ?; Sarb r/r J +; Saur l/l B -
    Sgnw l/lm LAX ?; Shaw l/l A ?; Shrd l/l B ?; Sidd l/l B +; Sind l/l B ?; Sinh l/l B -
    Sogd r/mr JA +; Sogo r/mr JA +; Sora l/l AB ?; Soyo l/l B ?; Sund l/l B -; Sunu l/l AB ?
    Sylo l/l B -; Syrc r/r JA -; Syre r/r J ?; Syrj r/r J ?; Syrn r/r J ?; Tagb l/l B ?
    Takr l/l B ?; Tale l/l BA -; Talu l/l BA -; Taml l/l B -; Tang l/vl LI +; Tavt l/l B -
    Tayo v/vl B ?; Telu l/l B -; Tfng l/VvRrl JA -; Tglg l/l B ?; Thaa r/r BA -; Thai l/l B -
    Tibt l/l B -; Tirh l/l B ?; Tnsa l/l A ?; Todr l/l A ?; Toto l/l A ?; Tutg l/l B ?
    Ugar l/l J +; Vaii l/l S -; Vith l/l A +; Wara l/l A ?; Wcho l/l AB -; Xpeo l/l SA +
    Xsux l/l LS +; Yezi r/r JA ?; Yiii l/l S -; Zanb l/l B +
"""
DIRS = {"TopToBottomLeftToRight": "l", "TopToBottomRightToLeft": "r", "BottomToTopLeftToRight": "L", "BottomToTopRightToLeft": "R",
        "LeftToRightTopToBottom": "m", "RightToLeftTopToBottom": "v", "LeftToRightBottomToTop": "M", "RightToLeftBottomToTop": "V"}
CATS = {"Alphabetic": "A", "Abugida": "B", "Abjad": "J", "Syllabic": "S", "Logographic": "L", "Special": "X", "Ideographic": "I"}
REF = {}
for _r in REFERENCE.replace("\n", ";").split(";"):
    if _r.split():
        _c, _d, _k, _h = _r.split()
        REF[_c] = (_d.split("/")[0], _d.split("/")[1], _k, _h)


def concrete(t, P, known, memo):
    """t with the values of known terms put in: lookups in maps of known content, projections and tests carried out."""
    if isinstance(t, tuple): return tuple(concrete(x, P, known, memo) for x in t)
    if not isinstance(t, T): return t
    if t in known: return known[t]
    if t in memo: return memo[t]
    old = t
    a = tuple(concrete(x, P, known, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    if a != t.a: t = mk(t.op, *a)
    if t in known: t = known[t]
    elif t.op == "fld" and t.a[0].op == "adt":
        ad = P.adts.get(t.a[0].a[0])
        n = t.a[1].split(".")[-1]
        if t.a[1] == SOME0 or t.a[1] == OK0: t = t.a[0].a[2][0]
        elif ad and len(ad["variants"]) == 1:
            for i, f in enumerate(ad["variants"][0][2]):
                if f[0] == n: t = t.a[0].a[2][i]
    elif t.op == "fld" and t.a[0].op == "tup" and t.a[1].startswith("tuple."): t = t.a[0].a[0][int(t.a[1][6:])]
    elif t.op == "fld" and t.a[0].op == "arr" and t.a[1].startswith("tuple."): t = t.a[0].a[0][int(t.a[1][6:])]
    elif t.op == "discr" and t.a[0].op == "adt": t = cint(t.a[0].a[1])
    elif t.op == "eq" and t.a[0].op == "c" and t.a[1].op == "c": t = cint(int(t.a[0].a[1] == t.a[1].a[1]))
    elif t.op == "call" and t.a[0] in ("map.get", "map.has") and t.a[1][1].op == "c":
        m, k = t.a[1]
        while m.op == "upd" and m.a[1] == "insert" and m.a[3][0].op == "c" and m.a[3][0].a[1] != k.a[1]: m = m.a[0]
        v = None
        if m.op == "upd" and m.a[1] == "insert" and m.a[3][0].op == "c": v = some(m.a[3][1])
        elif m.op == "mapnew": v = NONE
        if v is not None: t = v if t.a[0] == "map.get" else cint(v.a[1])
    memo[old] = t
    return t


def inserted(m):
    """(code, value, line) put into a map one after the other, last first."""
    while m.op == "upd":
        if m.a[1] == "insert" and m.a[3][0].op == "c": yield m.a[3]
        m = m.a[0]


def described(P, v):
    """(kind, directions, historic) of a script data value."""
    if v.op != "adt" or v.a[0] != SDATA: return None
    f = {x[0]: y for x, y in zip(P.adts[SDATA]["variants"][0][2], v.a[2])}
    cat, hist, ds = variant_name(P, f["category"]), f["historic"], f["directions"]
    while ds.op == "ref" or (ds.op == "call" and len(ds.a[1]) == 1): ds = ds.a[0] if ds.op == "ref" else ds.a[1][0]
    if ds.op != "arr" or hist.op != "c": return None
    return CATS.get(cat), [DIRS.get(variant_name(P, x)) for x in ds.a[0]], int(hist.a[1])


def c42(ctx):
    for cfg in ("full", "sync"):
        P = ctx.program(cfg)
        rs = lrun(ctx, cfg, LOC + "::script_data_for_language_tag")
        rn = lrun(ctx, cfg, LOC + "::try_new")
        if rs is None or rn is None: continue
        fn, e, a, ps = rs
        made = []
        for p in rn[3]:
            if p.kind != "ret": continue
            k, v = split_result(p)
            if k == "ok" and v.op == "adt": made.append({mk("fld", a[0], l): x for l, x in fields(P, LOC, v).items()})
        ctx.ob("%s:made" % cfg, bool(made), rn[0].where(), "no successful construction found")
        if not made: continue
        # what the constructor leaves for the lookup is the same on every path
        used = {t for p in ps if p.kind == "ret" for x in [p.value] + [k for k in p.facts if isinstance(k, T)] for t in subterms(x) if t in made[0]}
        for t in used:
            ctx.ob("%s:same:%s" % (cfg, t.a[1]), len({m[t] for m in made}) == 1, rn[0].where(), "%s differs between the ways a localiser is made" % show(t))
        known0 = {t: made[0][t] for t in used}
        ways = []
        for p in ps:
            if p.kind == "panic":
                ctx.ob("%s:panic" % cfg, noise(p) or unwrapped(p), fn.where(), "asking for script data may stop the program: %s" % (p.info[:2],))
                continue
            if p.kind != "ret": continue
            script, way = asked(ctx, cfg, p, fn, made[0], a)
            ways.append((p, script))
        ctx.ob("%s:ways" % cfg, any(s is not None for _, s in ways), fn.where(), "no script is ever looked up")
        # every script
        n = 0
        for code in sorted(set(REF) | REGISTERED | {c.a[1] for m in used for t in subterms(made[0][m]) if t.op == "upd" and t.a[1] == "insert" for c in t.a[3][:1] if c.op == "c"}):
            got = []
            for p, s in ways:
                if s is None: continue
                known = dict(known0)
                for k in [p.value] + [k for k in p.facts if isinstance(k, T)]:
                    for t in subterms(k):
                        if t.op == "call" and s in t.a[1] and t.a[0].split("::")[-1] in ("as_str", "to_string"): known[t] = mk("c", "str", code)
                        if t.op == "to_string" and s in t.a: known[t] = mk("c", "str", code)
                memo = {}
                ok_ = True
                for k, v in p.facts.items():
                    if not isinstance(k, T) or not isinstance(v, int): continue
                    k = concrete(k, P, known, memo)
                    if k.op == "c" and int(k.a[1]) != v: ok_ = False
                if ok_: got.append(concrete(p.value, P, known, memo))
            got = set(got)
            ctx.ob("%s:%s:one" % (cfg, code), len(got) == 1 and all(is_some(g) or is_none(g) for g in got), fn.where(), "the data of script %s cannot be told: %s" % (code, "; ".join(show(g)[:200] for g in got)))
            if len(got) != 1: continue
            g = got.pop()
            if is_none(g):
                ctx.ob("%s:%s:found" % (cfg, code), code not in REF, fn.where(), "there are no data of script %s" % code)
                continue
            if not is_some(g): continue
            n += 1
            d = described(P, pay(g))
            ctx.ob("%s:%s:registered" % (cfg, code), code in REGISTERED, fn.where(), "%s is not an ISO 15924 code, so its data are never found" % code)
            ctx.ob("%s:%s:known" % (cfg, code), d is not None, fn.where(), "the data of script %s cannot be told: %s" % (code, show(g)[:300]))
            if d is None: continue
            cat, ds, hist = d
            ctx.ob("%s:%s:directions" % (cfg, code), bool(ds) and len(set(ds)) == len(ds), fn.where(), "script %s has no direction, or one twice: %s" % (code, ds))
            if code not in REF: continue
            must, may, kinds, h = REF[code]
            names = {v: k for k, v in DIRS.items()}
            ctx.ob("%s:%s:direction" % (cfg, code), must in ds and all(x in may for x in ds), fn.where(),
                   "script %s is said to be written %s, but it is written %s" % (code, ", ".join(names.get(x, "?") for x in ds), names[must]))
            ctx.ob("%s:%s:kind" % (cfg, code), cat in kinds, fn.where(), "script %s is of another kind of writing than %s" % (code, {v: k for k, v in CATS.items()}.get(cat)))
            ctx.ob("%s:%s:historic" % (cfg, code), h == "?" or hist == (h == "+"), fn.where(), "script %s is%s historic" % (code, " not" if hist else ""))
        ctx.ob("%s:scripts" % cfg, n >= 180, fn.where(), "data of only %d scripts found" % n)


def unwrapped(p):
    """A canonical tag always parses, and a language made complete has a script."""
    return "unwrap" in str(p.info[0]) or "expect" in str(p.info[0])


def asked(ctx, cfg, p, fn, made, a):
    """The script that a path of the lookup is about."""
    ev = [x for x in p.events if x.kind == "call"]
    parsed = [x for x in ev if x.name.split("::")[-1] in ("try_from_bytes", "from_str", "parse", "try_from_str") or x.name.endswith("icu_language")]
    good = bool(parsed) and all(contains(t, a[1]) for x in parsed for t in x.args)
    ctx.ob("%s:tag" % cfg, good, fn.where(), "the script must be that of the given language tag")
    grow = [x for x in ev if x.name == MAXIMIZE]
    for x in grow:
        exp = x.args[0]
        exp = made.get(exp, exp)
        ctx.ob("%s:likely" % cfg, exp.op == "call" and exp.a[0].endswith("LocaleExpander::new_extended"), fn.where(), "the likely script must be known for every language CLDR knows, but it is taken from %s" % show(exp))
    other = [x for x in ev if x.name.startswith("icu_locid_transform::") and x.name != MAXIMIZE]
    ctx.ob("%s:other" % cfg, not other, fn.where(), "the language is changed by %s" % ", ".join(x.name for x in other))
    scripts = {t for x in [p.value] + [k for k in p.facts if isinstance(k, T)] for t in subterms(x) if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "fld" and t.a[0].a[1].endswith(".script")}
    text = lambda u: u.a[1] if u.op == "call" else u.a[:1] if u.op == "to_string" else ()
    here = {t for t in scripts for x in [p.value] + [k for k in p.facts if isinstance(k, T)] for u in subterms(x) if t in text(u)}
    first = [v for k, v in p.facts.items() if isinstance(k, T) and k.op == "discr" and k.a[0].op == "fld" and k.a[0].a[1].endswith(".script") and not any(t.op != "fld" and t.op != "call" and t.op != "arg" for t in subterms(k.a[0]))]
    if not here:
        # nothing looked up: the tag has no script and no likely one is known
        ctx.ob("%s:none" % cfg, is_none(p.value) and bool(grow) and 1 not in first, fn.where(), "no script is looked up although one is known: %s" % show(p.value)[:200])
        return None, None
    ctx.ob("%s:single" % cfg, len(here) == 1, fn.where(), "more than one script is looked up: %s" % "; ".join(map(show, here)))
    return sorted(here, key=repr)[0], bool(grow)
