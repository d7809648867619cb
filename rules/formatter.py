"""Formatter of pattern strings: construction from the syntax tree and formatting with values."""
import re
from common import *
import patterns as pt
from patterns import TREE, NODE, NT, variant, vindex, fields
from models import val, range_bounds

M = "i18n_localiser::"
FERR = M + "FormatterError"
PART = M + "PatternPart"
FORM = M + "Formatter"


# ---- what the parser guarantees about its trees (decided by C27 and C28)

POSKIDS = {"Root": [{"MainString"}, {"NamedGroup"}], "NamedGroup": [], "NamedString": [{"Identifier"}, {"String"}], "Selector": [{"Identifier"}, {"Identifier"}],
           "Pattern": [{"Identifier"}, {"Identifier"}], "Command": [{"Identifier", "Text"}, {"Identifier", "Text", "NumberSign"}], "String": [], "MainString": []}
REST = {"Root": set(), "NamedGroup": {"NamedString"}, "NamedString": set(), "Selector": set(), "Pattern": {"Selector"}, "Command": {"Identifier", "Text"},
        "String": {"Text", "NumberSign", "Command", "Pattern"}, "MainString": {"Text", "Command", "Pattern"}}
LAST = {"Root": {"MainString", "NamedGroup"}, "NamedString": {"String"}, "Selector": {"Identifier"}}
LENS = {"Root": (1, 2), "NamedGroup": (0, None), "NamedString": (2, 2), "Selector": (2, 2), "Pattern": (1, None), "Command": (1, None), "String": (0, None), "MainString": (0, None),
        "Identifier": (1, 1), "NumberSign": (1, 1), "Text": (0, None)}
LEAVES = {"Identifier", "NumberSign", "Text"}
ALL = set(LENS)


def iter_src(it):
    while it.op == "iter" and it.a[0] != "src": it = it.a[1]
    return it.a[1]


def made_loops(evs, l):
    for ev in reversed(evs):
        if ev.kind == "call" and ev.args and ev.args[0] is l and ev.name.split("::")[-1] in ("iter", "into_iter"): return ev.loops
    return ()


def position_in(S, t):
    """t is the position at which something was found in S."""
    return t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "call" and t.a[0].a[0].endswith(("str::find", "str::rfind")) and t.a[0].a[1][0] is S


class Shape:
    """Pruning of paths that contradict the shape of a syntax tree."""
    def __init__(s, P):
        s.P = P
        s.nodes, s.toks = M + "Tree." + orig(P, TREE, "nodes"), M + "Tree." + orig(P, TREE, "tokens")
        s.kids, s.ntok, s.nty = (M + "Node." + orig(P, NODE, x) for x in ("children", "tokens", "node_type"))
        s.names = [v[0] for v in P.adts[NT]["variants"]]

    def node(s, t):
        """Index term if t is a node of a tree."""
        return t.a[1] if t.op == "idx" and t.a[0].op == "fld" and t.a[0].a[1] == s.nodes else None

    def node_of(s, ev):
        """Node an iterator over children delivers."""
        n = s.list_of(ev.args[0], s.kids)
        return None if n is None or ev.ret is None else mk("idx", n.a[0], ev.ret)

    def list_of(s, t, label):
        """Node whose list of children/tokens t is."""
        if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "fld" and t.a[0].a[1] == label and s.node(t.a[0].a[0]) is not None: return t.a[0].a[0]
        return None

    def types(s, st, n, facts=True):
        i = s.node(n)
        out = set(ALL)
        if i.op == "c": out = {"Root"} if i.a[1] == 0 else set()
        elif i.op in ("idx", "elem"):
            p = s.list_of(i.a[0], s.kids)
            if p is not None:
                out = set()
                for u in s.types(st, p):
                    if u in LEAVES: continue
                    pk = POSKIDS[u]
                    if i.op == "idx":
                        k = i.a[1]
                        if k.op == "c": out |= pk[k.a[1]] if k.a[1] < len(pk) else REST[u]
                        elif k.op == "lin" and k.a[0] == -1 and k.a[1] == ((mk("len", i.a[0]), 1),): out |= LAST.get(u, set().union(REST[u], *pk))
                        else: out |= set().union(REST[u], *pk)
                    else:
                        k = s.position(st, i)
                        out |= (pk[k] if k < len(pk) else REST[u]) if k is not None else set().union(REST[u], *pk[s.skipped(st, i):])
        if facts:
            d = st.facts.get(mk("discr", mk("fld", n, s.nty), NT))
            nm = lambda x: "String" if x == "MainString" else x
            if isinstance(d, frozenset): out = {x for x in out if s.names.index(nm(x)) not in d}
            elif d is not None: out = {x for x in out if nm(x) == s.names[d]}
        return out

    def evs(s, st): return st.evlist() if hasattr(st, "evlist") else st.events

    def skipped(s, st, el):
        """Number of elements a constant skip leaves out before this element."""
        for ev in reversed(s.evs(st)):
            if ev.kind == "next" and ev.ret is el:
                it = ev.extra
                while it is not None and it.op == "iter" and it.a[0] != "src":
                    if it.a[0] == "skip" and len(it.a) > 2 and it.a[2].op == "c": return it.a[2].a[1]
                    it = it.a[1]
        return 0

    def taken(s, st, l, fn):
        """Number of elements taken so far by calls of next from the one iterator over l, or None."""
        n, made = 0, None
        for ev in s.evs(st):
            if ev.kind == "call" and ev.args and ev.args[0] is l and ev.name.split("::")[-1] in ("iter", "into_iter"): made, n = ev, 0
            if ev.kind == "next" and ev.args[0] is l:
                if made is None or ev.loops != made.loops or ev.ctx != made.ctx or ev.extra.a[0] != "src": return None
                n += 1
        return n if made is not None else None

    def position(s, st, el):
        """Position of an element taken by a call of next outside of loops, if it is certain."""
        n = 0
        made = None
        for ev in s.evs(st):
            if ev.kind == "call" and ev.args and ev.args[0] is el.a[0] and ev.name.split("::")[-1] in ("iter", "into_iter"):
                made, n = ev, 0
            if ev.kind == "next" and ev.args[0] is el.a[0]:
                if made is None or ev.loops != made.loops or ev.ctx != made.ctx: return None
                if ev.ret is el: return n
                n += 1
        return None

    def lens(s, st, l):
        n, kind = s.list_of(l, s.kids), "kids"
        if n is None: n, kind = s.list_of(l, s.ntok), "tok"
        if n is None: return None
        ts = {t for t in s.types(st, n) if (t in LEAVES) == (kind == "tok")}
        if not ts: return (1, 0)
        los, his = [LENS[t][0] for t in ts], [LENS[t][1] for t in ts]
        return min(los), None if None in his else max(his)

    def valid_index(s, i, label_list, into):
        """i is an element of a list of a node (children index the nodes, tokens the tokens)."""
        if into == "nodes" and i.op == "c" and i.a[1] == 0: return True
        return i.op in ("idx", "elem") and s.list_of(i.a[0], label_list) is not None

    def found(s, st, S, a, b):
        """a <= b are positions of characters found in S."""
        if a.op != "fld" or a.a[0].op != "call" or not a.a[0].a[0].endswith("str::find") or a.a[0].a[1][0] is not S: return False
        if b.op != "fld" or b.a[0].op != "elem" or b.a[0].a[1] != "match_indices" or b.a[0].a[0].a[1][0] is not S: return False
        ch = b.a[0].a[0].a[1][1]
        if ch.op != "c" or not (isinstance(ch.a[1], int) and ch.a[1] < 128): return False
        seen = False
        for ev in s.evs(st):
            if ev.kind != "next" or ev.args[0] is not b.a[0].a[0]: continue
            if ev.ret is b.a[0]: return seen
            x = mk("fld", ev.ret, b.a[1])
            seen = seen or st.facts.get(mk("eq", a, x)) == 1 or st.facts.get(mk("eq", x, a)) == 1
        return False

    def __call__(s, e, st, t, v):
        if t.op == "more" and s.list_of(iter_src(t.a[0]), s.kids) is not None:
            l = iter_src(t.a[0])
            n, b = s.taken(st, l, None), s.lens(st, l)
            if n is not None and b and t.a[0].a[0] == "src" and not e.loopctx(st)[len(made_loops(s.evs(st), l)):]:
                return n >= b[0] if v == 0 else b[1] is None or n < b[1]
            return True
        if t.op == "discr":
            x = t.a[0]
            if v == 0 and x.op == "call" and x.a[0].endswith("str::get") and x.a[1][1].op == "call" and x.a[1][1].a[0].endswith("RangeInclusive::new"):
                S, r = x.a[1][0], x.a[1][1]
                return not s.found(st, S, *r.a[1][:2])
            if v == 0 and x.op == "call" and x.a[0].endswith("str::get") and x.a[1][1].op == "adt":
                # slice from or to the position of something found in the same string
                S, r = x.a[1][0], x.a[1][1]
                return not (r.a[0].endswith(("RangeFrom", "RangeTo")) and position_in(S, r.a[2][0]))
            if x.op == "fld" and s.node(x.a[0]) is not None:
                ts = s.types(st, x.a[0])
                d = st.facts.get(t)
                if x.a[1] == s.nty: return bool(ts)
                if x.a[1] in (s.kids, s.ntok) and isinstance(d, int):
                    return any((y in LEAVES) == ((d == 0) == (x.a[1] == s.kids)) for y in ts)
            return True
        if t.op in ("lt", "eq"):
            for x in set(subterms(t)):
                if x.op != "len": continue
                b = s.lens(st, x.a[0])
                iv = st.facts.get(("iv", x))
                if b and iv:
                    lo, hi = max(b[0], iv[0] if iv[0] is not None else 0), min([y for y in (b[1], iv[1]) if y is not None] or [1 << 60])
                    if lo > hi: return False
            if t.op == "lt" and v == 0 and t.a[1].op == "len" and t.a[1].a[0].op == "fld":
                l = t.a[1].a[0].a[1]
                if l == s.nodes and s.valid_index(t.a[0], s.kids, "nodes"): return False
                if l == s.toks and s.valid_index(t.a[0], s.ntok, "tokens"): return False
        return True


def orig(P, adt, name):
    """Current name of a field known by its original name."""
    fs = [f[0] for f in P.adts[adt]["variants"][0][2]]
    return fs[fields(P, adt).index(name)]


def log_le(c):
    """Levels of messages against level filters."""
    x, y = c.fz(0), c.fz(1)
    if x.op == y.op == "adt" and x.a[0] == "log::Level" and y.a[0] == "log::LevelFilter": return c.deliver(c.st, cint(1 if x.a[1] + 1 <= y.a[1] else 0))
    return NotImplemented


# logging is off: what is logged is not a part of any result
QUIET = {"log::max_level": lambda c: c.deliver(c.st, mk("adt", "log::LevelFilter", 0, ())), "core::PartialOrd::le": log_le}
UB = ("assert MisalignedPointerDereference", "assert NullPointerDereference", "assert InvalidEnumConstruction")


def construct(ctx, cfg):
    """All paths of building a formatter from a string."""
    P = ctx.program(cfg)
    return run(ctx, cfg, FORM + "::try_new", opaque=(TREE + "::try_new", "i18n_utility::LanguageTagRegistry::icu_language"), models=dict(QUIET), assume=Shape(P))


# ---- construction

def strip(t):
    """The object without its versions."""
    while t.op == "upd": t = t.a[0]
    return t


def consts(p, x):
    """(constant x is known to equal, constants it is known to differ from)"""
    k = p.facts.get(("const", x))
    yes, no = (k.a[1] if k is not None and k.op == "c" else None), set()
    for f, v in p.facts.items():
        if isinstance(f, T) and f.op == "eq" and x in f.a[:2]:
            y = f.a[1] if f.a[0] is x else f.a[0]
            if y.op == "c":
                if v == 1: yes = y.a[1]
                elif v == 0: no.add(y.a[1])
    return yes, no


KEYWORDS = {"decimal", "date_time", "plural", "ordinal", "select"}
SIGN, GROUP, LENGTH = "fixed_decimal::SignDisplay", "icu_decimal::GroupingStrategy", ("full", "long", "medium", "short")
OPTIONS = {("decimal", "sign"): {"auto": 0, "never": 1, "always": 2, "except_zero": 3, "negative": 4}, ("decimal", "group"): {"auto": 0, "never": 1, "always": 2, "min2": 3},
           ("date_time", "date"): {x: i for i, x in enumerate(LENGTH)}, ("date_time", "time"): {x: i for i, x in enumerate(LENGTH)},
           ("date_time", "calendar"): {x: None for x in ("gregory", "buddhist", "japanese", "ethiopic", "indian", "coptic", "iso")}}
PLURALS = {"zero", "one", "two", "few", "many", "other"}
ENUMS = {"sign": ["Auto", "Never", "Always", "ExceptZero", "Negative"], "group": ["Auto", "Never", "Always", "Min2"], "date": ["Full", "Long", "Medium", "Short"], "time": ["Full", "Long", "Medium", "Short"]}


class Build:
    """Paths of building a formatter, read against the syntax tree."""
    def __init__(s, ctx, cfg):
        s.cfg = cfg
        r = construct(ctx, cfg)
        s.ok = r is not None
        if not s.ok: return
        s.fn, s.e, s.args, s.ps = r
        s.P = s.e.P
        s.S = Shape(s.P)
        s.localiser, s.string, s.tag = s.args
        s.patterns = None
        for p in s.ps:
            for ev in p.events:
                if ev.kind == "call" and ev.name.endswith("HashMap::insert") and ev.args[1].op == "c" and ev.args[1].a[1] == "_": s.patterns = strip(ev.args[0])
        s.roles, s.kinds = {}, {}

    # terms
    def text(s, t):
        """Node whose (first) token t is the text of."""
        if t.op == "fld" and t.a[1].endswith("Token.string") and t.a[0].op == "idx" and t.a[0].a[0].op == "fld" and t.a[0].a[0].a[1] == s.S.toks:
            i = t.a[0].a[1]
            if i.op == "idx" and i.a[1] is cint(0): return s.S.list_of(i.a[0], s.S.ntok)
        return None

    def child(s, p, n, N, k):
        """n is child k of N (k = -1: the last)"""
        i = s.S.node(n) if n is not None else None
        if i is None or i.op not in ("idx", "elem") or s.S.list_of(i.a[0], s.S.kids) is not N: return False
        if i.op == "elem": return k >= 0 and s.S.position(p, i) == k
        j = i.a[1]
        return j.op == "c" and j.a[1] == k or k == -1 and (j.op == "lin" and j.a[0] == -1 and j.a[1] == ((mk("len", i.a[0]), 1),) or j.op == "c" and j.a[1] == s.S.lens(p, i.a[0])[1] - 1 if s.S.lens(p, i.a[0])[1] else False)

    def istext(s, p, t, N, k):
        n = s.text(t)
        return n is not None and s.child(p, n, N, k)

    def placeholder(s, p, t, N): return s.istext(p, t, N, 0)

    def item(s, p):
        """(index of the event, event, node) of the part of a string being built at the end of the path."""
        for i in reversed(range(len(p.events))):
            ev = p.events[i]
            if ev.kind not in ("next", "exhausted"): continue
            n = s.S.list_of(ev.args[0], s.S.kids)
            if n is not None and s.S.types(p, n) and s.S.types(p, n) <= {"String", "MainString"}:
                if ev.kind == "exhausted": return None
                return i, ev, mk("idx", n.a[0], ev.ret)
        return None

    def named(s, p):
        """(index, event, node) of the named string being built."""
        for i in reversed(range(len(p.events))):
            ev = p.events[i]
            if ev.kind not in ("next", "exhausted"): continue
            n = s.S.list_of(ev.args[0], s.S.kids)
            if n is not None and s.S.types(p, n) == {"NamedGroup"}:
                return None if ev.kind == "exhausted" else (i, ev, mk("idx", n.a[0], ev.ret))
        return None

    def keyword(s, p, N):
        """(text term, known keyword or None, refuted keywords) of a pattern node; None when no keyword is known to exist."""
        for f in list(p.facts):
            if not isinstance(f, T) or f.op != "eq": continue
            for x in f.a[:2]:
                if isinstance(x, T) and x.op == "fld" and s.istext(p, x, N, 1):
                    y, no = consts(p, x)
                    return x, y, no
        return None

    def pushes(s, p, i):
        return [ev for ev in p.events[i:] if ev.kind == "call" and ev.name == "alloc::Vec::push" and ev.args[1].op == "adt" and ev.args[1].a[0] == PART]

    # ---- rules
    def analyse(s, k, want):
        """Obligations about building; want selects the property."""
        out = []

        def ob(prop, key, ok, p, msg):
            out.append((prop, "%s:%s" % (k, key), ok, pt.last_line(s.fn, p.events) if p is not None else s.fn.where(), msg))
        s.updates, s.flags, partpush, s.corr = {}, {}, {}, {}
        items = [(p, s.item(p)) for p in s.ps if p.kind != "panic"]
        for p, it in items:
            if it is not None and p.kind == "loop" and s.S.types(p, it[2]) == {"Pattern"} and s.keyword(p, it[2]):
                for ev in s.pushes(p, it[0]): s.correlated(s.keyword(p, it[2])[1], ev.args[1].a[1])
        # first the iterations over the options, then what is pushed
        for p, it in items:
            if it is None or s.S.types(p, it[2]) != {"Pattern"}: continue
            s.pattern_iteration(p, it, ob)
        for p, it in items:
            s.known_after(p, ob)
            if it is None:
                s.outside(p, ob)
                continue
            i, nx, N = it
            ts = s.S.types(p, N)
            deep = [ev for ev in s.pushes(p, i) if ev.loops != nx.loops]
            ob("order", "push-level", not deep, p, "a part must be added once per part of the string, not once per element of an inner list")
            ob("order", "all-parts", nx.extra.op == "iter" and nx.extra.a[0] == "src", p, "every part of the string must be taken, in order: %s" % show(nx.extra))
            ob("order", "one-type", len(ts) == 1, p, "the kind of the part must be determined: %s" % sorted(ts))
            if len(ts) != 1: continue
            ty = next(iter(ts))
            done = p.kind == "loop" and p.info == nx.loops[-1]
            if done:
                pu = s.pushes(p, i)
                ob("order", "one-part:" + ty, len(pu) == 1, p, "a %s of the string must become exactly one part of the formatter, %d are added" % (ty, len(pu)))
                if len(pu) != 1: continue
                v = pu[0].args[0]
                ob("order", "same-list", v.op == "upd" and v.a[1] == "loop" and v.a[2] == p.info, p, "parts must be added to the list of their string only: %s" % show(v))
                if v.op == "upd": partpush.setdefault(p.info, set()).add(v)
                getattr(s, "part_" + ty.lower())(p, it, pu[0].args[1], ob)
            elif p.kind == "ret": s.refusal(p, it, ty, ob)
        for lid, vs in partpush.items(): ob("order", "one-list", len(vs) == 1, None, "all parts of a string must be added to one list")
        s.partlists = {next(iter(vs)) for vs in partpush.values()}
        for p, it in items:
            if it is None and p.kind == "ret" and split_result(p)[0] == "ok": s.result(p, ob)
        s.vocabulary(ob)
        return [o for o in out if o[0] in want]

    def patterns_has(s, p, x):
        """Whether x is known to be (1) or not to be (0) a name of a string built before."""
        for f, v in p.facts.items():
            if isinstance(f, T) and f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] == "map.get" and strip(f.a[0].a[1][0]) is s.patterns and f.a[0].a[1][1] is x: return v
        return None

    def entry(s, p, N, i):
        """Last entry of the options of the pattern node N: (event, key, value, loop)."""
        for ev in reversed(p.events[i:]):
            if ev.kind == "exhausted" and strip(ev.args[0]).op == "mapnew": return None
            if ev.kind == "next" and strip(ev.args[0]).op == "mapnew":
                if ev.ret.op == "elem" and "keys" in ev.ret.a: return ev, ev.ret, mk("call", "map.get", (ev.args[0], ev.ret), None), ev.loops[-1] if ev.loops else None
                return ev, mk("fld", ev.ret, "tuple.0"), mk("fld", ev.ret, "tuple.1"), ev.loops[-1] if ev.loops else None
        return None

    def pattern_iteration(s, p, it, ob):
        i, nx, N = it
        kw = s.keyword(p, N)
        y = kw[1] if kw else None
        # selectors are collected as pairs of texts
        for ev in p.events[i:]:
            if ev.kind == "call" and ev.name.endswith("HashMap::insert") and strip(ev.args[0]).op == "mapnew" and strip(ev.args[0]) is not s.patterns:
                a, b = s.text(ev.args[1]), s.text(ev.args[2])
                sel = None
                if a is not None and s.S.node(a) is not None and s.S.node(a).op in ("idx", "elem"): sel = s.S.list_of(s.S.node(a).a[0], s.S.kids)
                okk = sel is not None and b is not None and s.child(p, a, sel, 0) and s.child(p, b, sel, -1)
                j = s.S.node(sel) if okk else None
                okk = okk and j.op == "elem" and s.S.list_of(j.a[0], s.S.kids) is N and s.S.skipped(p, j) == 2
                ob("vocab", "pairs", okk, p, "the options of a pattern must be collected as the first and the last identifier of each selector, for every selector")
        if p.kind == "loop" and p.info != nx.loops[-1]:
            evs = [ev for ev in p.events[i:] if ev.kind == "next" and ev.loops and ev.loops[-1] == p.info]
            if evs and s.S.list_of(evs[0].args[0], s.S.kids) is N:
                ins = [ev for ev in p.events[i:] if ev.kind == "call" and ev.name.endswith("HashMap::insert") and ev.loops and ev.loops[-1] == p.info]
                ob("vocab", "pairs-all", len(ins) == 1, p, "every selector of a pattern must be collected once, is %d times" % len(ins))
        en = s.entry(p, N, i)
        if en is None or p.kind != "loop" or p.info != en[3]: return
        ev, key, value, lid = en
        ob("vocab", "entries", ev.extra.op == "iter" and ev.extra.a[0] == "src", p, "every option must be looked at: %s" % show(ev.extra))
        ky, vy = consts(p, key), consts(p, value)
        ch = {}
        for loc, kind in s.e.havoc.get(lid, {}).items():
            v = s.e.rd(p, loc[0], loc[1])
            if not (v.op == "hv" and v.a[0] == lid and v.a[1] == loc) and not (v.op == "upd" and v.a[1] == "loop" and v.a[2] == lid): ch[loc] = v
        if y in ("decimal", "date_time"):
            o = OPTIONS.get((y, ky[0]))
            if not ob("vocab", "option-known:%s" % y, o is not None, p, "an option of %s that is none of %s is accepted" % (y, sorted(b for a, b in OPTIONS if a == y))) and o is None: return
            if ky[0] in {x for (w, _), m in s.corr.items() if w == y for x in m.values()}: return  # its value is read by name
            if ob("vocab", "value-known:%s:%s" % (y, ky[0]), vy[0] in o, p, "a value of option %s that is none of %s is accepted" % (ky[0], sorted(o))) or vy[0] in o:
                s.updates.setdefault((y, ky[0], vy[0]), []).append((p, lid, ch, value))
        elif y in ("plural", "ordinal", "select"):
            if y != "select": ob("vocab", "selector-known:%s" % y, ky[0] in PLURALS, p, "a selector of %s that is no plural category is accepted" % y)
            ob("cycle", "known:%s" % y, s.patterns_has(p, value) == 1, p, "a selector of %s naming a string that was not built before is accepted" % y)
            ob("cycle", "not-main:%s" % y, "_" in vy[1] or vy[0] not in (None, "_"), p, "a selector of %s naming the main string is accepted" % y)
            if y != "select": s.flags.setdefault((y, lid), []).append((p, ky[0], ch))
        else: ob("vocab", "keyword-known", False, p, "a keyword that is none of %s is accepted" % sorted(KEYWORDS))

    def lookups(s, p, pm, y):
        """{option: (whether it was given, value)} of the options of keyword y that the path looked up among the pairs by name."""
        r = {}
        for f, v in p.facts.items():
            if isinstance(f, T) and f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] == "map.get":
                m = strip(f.a[0].a[1][0])
                if m is not pm and (pm is not None or m.op != "mapnew" or m is s.patterns): continue
                k = f.a[0].a[1][1]
                if k.op == "c" and (y, k.a[1]) in OPTIONS and v in (0, 1): r[k.a[1]] = (v, mk("fld", f.a[0], SOME0))
        return r

    def correlated(s, y, variant):
        """{field: option} of the fields of a part that are given exactly when an option looked up by name is."""
        if (y, variant) not in s.corr:
            got = []
            for p in s.ps:
                it = s.item(p) if p.kind == "loop" else None
                if it is None or s.S.types(p, it[2]) != {"Pattern"} or p.info != it[1].loops[-1]: continue
                kw, pu = s.keyword(p, it[2]), s.pushes(p, it[0])
                if kw and kw[1] == y and len(pu) == 1 and pu[0].args[1].a[1] == variant: got.append((pu[0].args[1].a[2], s.lookups(p, s.pairs_of(p, it[0]), y)))
            r = {}
            for w, o in OPTIONS:
                if w != y or not got or not all(o in lk for _, lk in got): continue
                js = [j for j in range(len(got[0][0])) if all((is_some(fs[j]) if lk[o][0] else fs[j] is NONE) for fs, lk in got)]
                if len(js) == 1 and {lk[o][0] for _, lk in got} == {0, 1}: r[js[0]] = o
            s.corr[y, variant] = r
        return s.corr[y, variant]

    def other_known(s, p, y, pairs, want):
        """The path knows that the selector other is (not) among the pairs."""
        for f, v in p.facts.items():
            if not isinstance(f, T): continue
            if f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] == "map.get" and f.a[0].a[1][1] is cstr("other") and strip(f.a[0].a[1][0]) is pairs and v == want: return True
            if f.op == "hv" and v == want and (y, f.a[0]) in s.flags and f.a[2] is cint(0):
                good = True
                for q, key, ch in s.flags[(y, f.a[0])]:
                    w = ch.get(f.a[1])
                    good = good and ((w is cint(1)) if key == "other" else w is None)
                if good: return True
        return False

    def pairs_of(s, p, i):
        for ev in reversed(p.events[i:]):
            if ev.kind in ("exhausted", "next") and strip(ev.args[0]).op == "mapnew": return strip(ev.args[0])
        return None

    def refusal(s, p, it, ty, ob):
        i, nx, N = it
        r, v = split_result(p)
        if r != "err" or v.op != "adt":
            ob("vocab", "early", False, p, "building must not end before all parts are built: %s" % show(p.value))
            return
        nm, a = variant_name(s.P, v), v.a[2]
        kw = s.keyword(p, N) if ty == "Pattern" else None
        y = kw[1] if kw else None
        en = s.entry(p, N, i)
        key, value = (en[1], en[2]) if en else (None, None)
        ky, vy = (consts(p, key), consts(p, value)) if en else ((None, set()), (None, set()))
        C = lambda t, x: t.op == "c" and t.a[1] == x
        ph = lambda t: s.placeholder(p, t, N)
        good, prop = False, "vocab"
        if ty == "Pattern" and kw:
            if nm == "InvalidKeyword": good = a[0] is kw[0] and ph(a[1]) and KEYWORDS <= kw[2]
            elif nm == "InvalidOption": good = bool(en) and a[0] is key and y in ("decimal", "date_time") and (C(a[1], y) or y is not None and a[1] is kw[0]) and ph(a[2]) and {o for w, o in OPTIONS if w == y} <= ky[1]
            elif nm == "InvalidOptionValue" and any(a[0] is val for d, val in s.lookups(p, s.pairs_of(p, i), y).values()):
                o = next(x for x, (d, val) in s.lookups(p, s.pairs_of(p, i), y).items() if val is a[0])
                good = C(a[1], o) and (C(a[2], y) or y is not None and a[2] is kw[0]) and set(OPTIONS[y, o]) <= consts(p, a[0])[1]
            elif nm == "InvalidOptionValue": good = bool(en) and (y, ky[0]) in OPTIONS and a[0] is value and C(a[1], ky[0]) and (C(a[2], y) or y is not None and a[2] is kw[0]) and set(OPTIONS[y, ky[0]]) <= vy[1]
            elif nm == "InvalidSelector": good = bool(en) and y in ("plural", "ordinal") and a[0] is key and (C(a[1], y) or y is not None and a[1] is kw[0]) and ph(a[2]) and PLURALS <= ky[1]
            elif nm == "SelectorNamed": good = bool(en) and y in ("plural", "ordinal", "select") and a[0] is value and a[1] is key and ph(a[2]) and (vy[0] == "_" or s.patterns_has(p, value) == 0)
            elif nm == "SelectorOther":
                pm = s.pairs_of(p, i)
                good = y in ("plural", "ordinal") and (C(a[0], y) or y is not None and a[0] is kw[0]) and ph(a[1]) and pm is not None and s.other_known(p, y, pm, 0)
            elif nm == "Locale": good = y == "date_time" and ky[0] == "calendar" and a[0].op == "fld" and a[0].a[1] == ERR0
        elif ty == "Command":
            prop = "command"
            if nm == "Command": good = a[0].op == "fld" and a[0].a[1] == ERR0 and a[0].a[0].a[0] == "<indirect>" or a[0].op == "adt" and variant_name(s.P, a[0]) == "NotFound"
            elif nm == "InvalidNode":
                # only of a kind no parameter has
                ns = [s.S.node_of(ev) for ev in p.events[i + 1:] if ev.kind == "next" and s.S.node_of(ev) is not None]
                good = bool(ns) and not s.S.types(p, ns[-1]) & {"Identifier", "Text"}
            elif nm == "NodeNotFound": good = any(s.S.types(p, mk("idx", N.a[0], ev.ret)) == {"Text"} and s.S.position(p, ev.ret) == 0 for ev in p.events[i + 1:] if ev.kind == "next" and s.S.list_of(ev.args[0], s.S.kids) is N)
        ob(prop, "refused:%s:%s" % (ty, nm), good, p, "a %s must not be refused with %s here" % (ty, show(v)[:200]))

    def part_text(s, p, it, part, ob):
        v = part.a[2][0] if len(part.a[2]) == 1 else None
        ob("order", "text-shape", v is not None, p, "the text of the part must be stored")
        if v is None: return
        s.roles.setdefault("text", set()).add((part.a[1], 0))
        ob("order", "text-all", s.all_tokens(p, v, it[2]), p, "a text part must hold the texts of all its tokens in order: %s" % show(v))

    def all_tokens(s, p, v, N, sep=None):
        """v is the concatenation of the texts of all tokens of node N."""
        if v.op == "hv":
            if v.a[2] is not cstr(""): return False
            lid, loc = v.a[0], v.a[1]
            its = [q for q in s.ps if q.kind == "loop" and q.info == lid and contains_node(q, N)]
            if not its: return False
            for q in its:
                w = s.e.rd(q, loc[0], loc[1])
                nx = [ev for ev in q.events if ev.kind == "next" and ev.loops and ev.loops[-1] == lid]
                if len(nx) != 1 or s.S.list_of(nx[0].args[0], s.S.ntok) is not N or nx[0].extra.a[0] != "src": return False
                if not (w.op == "cat" and len(w.a[0]) == 2 and w.a[0][0].op == "hv" and w.a[0][0].a[:2] == v.a[:2]): return False
                x = w.a[0][1]
                if not (x.op == "fld" and x.a[1].endswith("Token.string") and x.a[0].op == "idx" and x.a[0].a[0].op == "fld" and x.a[0].a[0].a[1] == s.S.toks and x.a[0].a[1] is nx[0].ret): return False
            return any(ev.kind == "exhausted" and ev.loops and ev.loops[-1] == lid for ev in p.events)
        return False

    def part_numbersign(s, p, it, part, ob):
        v = part.a[2][0] if len(part.a[2]) == 1 else None
        pu = [ev for ev in p.events[it[0]:] if ev.kind == "call" and ev.name == "alloc::Vec::push" and not (ev.args[1].op == "adt" and ev.args[1].a[0] == PART)]
        okk = v is not None and len(pu) == 1 and v is mk("len", pu[0].args[0]) and pu[0].args[1] is cstr("")
        s.roles.setdefault("number", set()).add((part.a[1], 0))
        if okk: s.kinds["numbers"] = pu[0].args[0]
        ob("order", "number-slot", okk, p, "every number sign must have a slot of its own for its number: %s" % (show(v) if v is not None else part))

    def part_pattern(s, p, it, part, ob):
        i, nx, N = it
        kw = s.keyword(p, N)
        fs = part.a[2]
        phs = [j for j, f in enumerate(fs) if s.placeholder(p, f, N)]
        ob("vocab", "placeholder", len(phs) == 1, p, "the part must keep the name of its placeholder once: %s" % show(part)[:200])
        if len(phs) != 1: return
        rest = [j for j in range(len(fs)) if j != phs[0]]
        if kw is None:
            end = any(ev.kind == "exhausted" and s.S.list_of(ev.args[0], s.S.kids) is N for ev in p.events[i:]) or any(isinstance(f, T) and f.op in ("lt", "eq") and "len" in show(f) for f in p.facts)
            ob("vocab", "plain", end and not rest, p, "a placeholder is treated as a plain string only when it has no keyword")
            s.roles.setdefault("string", set()).add((part.a[1], (("placeholder", phs[0]),)))
            return
        y = kw[1]
        ob("vocab", "keyword-part", y in KEYWORDS, p, "a keyword that is none of %s is accepted" % sorted(KEYWORDS))
        if y not in KEYWORDS: return
        pm = s.pairs_of(p, i)
        # a part with a keyword is added only after all of its options were looked at
        ex = [ev for ev in p.events[i:] if ev.kind == "exhausted" and strip(ev.args[0]) is pm and pm is not None]
        exs = [ev for ev in p.events[i:] if ev.kind == "exhausted" and s.S.list_of(ev.args[0], s.S.kids) is N]
        ob("vocab", "options-all:%s" % y, bool(ex) and bool(exs), p, "all options of %s must have been looked at before it is accepted" % y)
        if y in ("decimal", "date_time"):
            role = [("placeholder", phs[0])]
            lid = ex[0].loops[-1] if ex and ex[0].loops else None
            for j in rest:
                f = fs[j]
                names = {k2 for (w, k2, _), us in s.updates.items() for _, l, ch, _ in us if w == y and l == lid and f.op == "hv" and f.a[1] in ch}
                okk = f.op == "hv" and f.a[0] == lid and f.a[2] is NONE and len(names) == 1
                o = s.correlated(y, part.a[1]).get(j)
                if o is not None:
                    given, val = s.lookups(p, pm, y)[o]
                    vy = consts(p, val)[0]
                    okk = not given or vy in OPTIONS[y, o]
                    if given and okk: s.updates.setdefault((y, o, vy), []).append((p, "named", {o: f}, val))
                    s.kinds.setdefault(("locs", y), {})["named", o] = o
                    if okk: role.append((o, j))
                    ob("vocab", "value-known:%s:%s" % (y, o), okk, p, "a value of option %s that is none of %s is accepted" % (o, sorted(OPTIONS[y, o])))
                    continue
                ob("vocab", "option-kept:%s" % y, okk, p, "each option of %s must be kept as given, and be absent when it was not given: %s" % (y, show(f)))
                if okk: role.append((next(iter(names)), j, f.a[1]))
            s.roles.setdefault(y, set()).add((part.a[1], tuple(sorted((r[0], r[1]) for r in role))))
            s.kinds.setdefault(("locs", y), {}).update({(lid, r[0]): r[2] for r in role if len(r) > 2})
        else:
            if y != "select": ob("vocab", "other:%s" % y, pm is not None and s.other_known(p, y, pm, 1), p, "%s without the selector other is accepted" % y)
            sel = [ev for ev in p.events[i:] if ev.kind == "call" and ev.name == "alloc::Vec::push" and strip(ev.args[1]).op == "mapnew"]
            okk = len(sel) == 1 and strip(sel[0].args[1]) is pm
            role = [("placeholder", phs[0])]
            for j in rest:
                if okk and fs[j] is mk("len", sel[0].args[0]): role.append(("selectors", j))
                elif fs[j].op == "adt" and not fs[j].a[2]: role.append(("=", j, fs[j].a[0], fs[j].a[1]))
                else: okk = False
            okk = okk and len([r for r in role if r[0] == "selectors"]) == 1
            ob("vocab", "selectors-kept:%s" % y, okk, p, "the selectors of %s must be kept with the part: %s" % (y, show(part)[:200]))
            if okk: s.kinds["selectors"] = sel[0].args[0]
            s.roles.setdefault(y, set()).add((part.a[1], tuple(role)))

    def part_command(s, p, it, part, ob):
        i, nx, N = it
        d = s.delayed(p, N)
        vs = [(j, f) for j, f in enumerate(part.a[2])]
        if len(vs) != 1:
            ob("command", "shape", False, p, "unrecognised part of a command: %s" % show(part)[:200])
            return
        j, v = vs[0]
        if d:
            ob("command", "delayed", s.parameters(p, v, N, 2), p, "a delayed command must be kept with its name and all of its parameters, in order: %s" % show(v)[:300])
            s.roles.setdefault("command", set()).add((part.a[1], 0))
            ob("command", "not-run", not any(ev.name == "<indirect>" for ev in p.events[i:]), p, "a delayed command must not be run when the formatter is built")
            return
        calls_ = [ev for ev in p.events[i:] if ev.kind == "call" and ev.name == "<indirect>"]
        okk = len(calls_) == 1 and v is mk("fld", calls_[0].ret, OK0)
        ob("command", "once", okk, p, "a command must be run once and its result be the text: %s" % show(v)[:300])
        s.roles.setdefault("text", set()).add((part.a[1], 0))
        if not okk: return
        f = calls_[0].args[0]
        g = f.a[0] if f.op == "fld" and f.a[1] == SOME0 else None
        ob("command", "function", g is not None and g.op == "call" and g.a[0] == "map.get" and s.istext(p, g.a[1][1], N, 0) and any(x is s.localiser for x in subterms(g.a[1][0])), p,
           "the function run must be the one registered with the localiser under the command's name: %s" % show(f)[:300])
        ob("command", "arguments", len(calls_[0].args) == 2 and s.parameters(p, calls_[0].args[1], N, 1), p, "a command must get its name and all of its parameters, in order: %s" % show(calls_[0].args[1])[:300])

    def delayed(s, p, N):
        """The path knows that the second child of the command is a number sign."""
        for f in p.facts:
            if isinstance(f, T):
                for x in subterms(f):
                    if x.op == "idx" and s.S.node(x) is not None and s.child(p, x, N, 1) and s.S.types(p, x) == {"NumberSign"}: return True
        return False

    def string_value(s, t, q, n=None):
        """Text term of a string value."""
        return t.a[2][0] if t.op == "adt" and t.a[0].endswith("PlaceholderValue") and variant_name(s.P, t) == "String" else None

    def parameters(s, p, v, N, k):
        """v is the list of the name and all texts after the first k children of the command N."""
        if not (v.op == "upd" and v.a[1] == "loop"): return False
        b, lid = v.a[0], v.a[2]
        first = b.a[3][0] if b.op == "upd" and b.a[1] == "push" and b.a[0] is mk("arr", ()) else b.a[0][0] if b.op == "arr" and len(b.a[0]) == 1 else None
        if first is None or s.string_value(first, p) is None or not s.istext(p, s.string_value(first, p), N, 0): return False
        ex = [ev for ev in p.events if ev.kind == "exhausted" and ev.loops and ev.loops[-1] == lid]
        full = lambda it: it.op == "iter" and it.a[0] == "skip" and it.a[1].a[0] == "src" and it.a[2] is cint(k) and s.S.list_of(it.a[1].a[1], s.S.kids) is N
        if not ex or not full(ex[-1].extra): return False
        its = [q for q in s.ps if q.kind == "loop" and q.info == lid]
        for q in its:
            nx = [ev for ev in q.events if ev.kind == "next" and ev.loops and ev.loops[-1] == lid]
            pu = [ev for ev in q.events if ev.kind == "call" and ev.name == "alloc::Vec::push" and ev.loops and ev.loops[-1] == lid]
            if len(nx) != 1 or len(pu) != 1 or strip_loop(pu[0].args[0]) != lid: return False
            n = s.S.node_of(nx[0])
            x = s.string_value(pu[0].args[1], q)
            if n is None or x is None: return False
            ty = s.S.types(q, n)
            if not (ty == {"Identifier"} and s.text(x) is n or ty == {"Text"} and s.all_tokens(q, x, n)): return False
        return bool(its)

    def outside(s, p, ob):
        """Paths that end outside of the building of a part."""
        if p.kind == "ret":
            r, v = split_result(p)
            if r == "err" and v.op == "adt":
                nm, a = variant_name(s.P, v), v.a[2]
                good = False
                if nm == "Tree": good = a[0].op == "fld" and a[0].a[1] == ERR0
                elif nm == "NoGrammar": good = any(isinstance(f, T) and f.op == "fld" and f.a[1].startswith(TREE + ".") and v2 == 0 for f, v2 in p.facts.items())
                elif nm == "NamedStringIdentifier":
                    nd = s.named(p)
                    good = nd is not None and s.istext(p, a[0], nd[2], 0) and s.patterns_has(p, a[0]) == 1
                ob("vocab", "refused:%s" % nm, good, p, "building must not be refused with %s here" % show(v)[:200])
            elif r != "ok": ob("vocab", "result", False, p, "unrecognised result %s" % show(p.value)[:200])
            return
        nd = s.named(p)
        if p.kind == "loop" and nd is not None and p.info == nd[1].loops[-1]:
            i, nx, N = nd
            ins = [(j, ev) for j, ev in enumerate(p.events) if j > i and ev.kind == "call" and ev.name.endswith("HashMap::insert") and strip(ev.args[0]) is s.patterns]
            okk = len(ins) == 1 and s.istext(p, ins[0][1].args[1], N, 0)
            ob("order", "named-kept", okk, p, "every named string must be kept under its own name, once")
            ob("order", "named-all", nx.extra.op == "iter" and nx.extra.a[0] == "src", p, "every named string must be built")
            if not okk: return
            v = ins[0][1].args[2]
            ob("order", "named-list", s.finished(p, i, v, N, -1), p, "the parts kept for a named string must be the ones of all of its string: %s" % show(v))
            ob("cycle", "named-new", s.patterns_has(p, ins[0][1].args[1]) == 0, p, "a second string of the same name must be refused")

    def known_after(s, p, ob):
        """A name becomes known only after the parts of its string were built."""
        built = False
        for ev in p.events:
            if ev.kind in ("next", "exhausted"):
                n = s.S.list_of(ev.args[0], s.S.kids)
                ts = s.S.types(p, n) if n is not None else ()
                if ts and ts <= {"String", "MainString"}: built = ev.kind == "exhausted"
                elif ts and ts <= {"NamedGroup"}: built = False
            if ev.kind == "call" and ev.args and strip(ev.args[0]) is s.patterns and re.search(r"insert|entry|extend|append", ev.name) and not (len(ev.args) > 1 and ev.args[1] is cstr("_")):
                ob("cycle", "named-after", built, p, "the name of a string must become known only after its parts were built")

    def finished(s, p, i, v, N, k):
        """v is the list of parts built from all children of the string that is child k of N."""
        if not (v.op == "upd" and v.a[1] == "loop" and v.a[0] is mk("arr", ())): return False
        for ev in p.events[i:]:
            if ev.kind == "exhausted" and ev.loops and ev.loops[-1] == v.a[2]:
                n = s.S.list_of(ev.args[0], s.S.kids)
                if n is not None and (s.child(p, n, N, k) if N is not None else s.S.types(p, n) == {"MainString"}): return True
        return False

    def result(s, p, ob):
        v = split_result(p)[1]
        if v.op != "adt" or v.a[0] != FORM:
            ob("order", "formatter", False, p, "a formatter must be returned: %s" % show(v)[:100])
            return
        names = [f[0] for f in s.P.adts[FORM]["variants"][0][2]]
        r = {}
        for nm, f in zip(names, v.a[2]):
            if f is s.tag: r["tag"] = nm
            elif f.op == "call" and f.a[0].endswith("::icu_language") and f.a[1][-1] is s.tag: r["locale"] = nm
            elif strip(f) is s.patterns: r["patterns"] = nm
        ins = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("HashMap::insert") and strip(ev.args[0]) is s.patterns and ev.args[1] is cstr("_")]
        ob("order", "main-list", bool(ins) and s.finished(p, 0, ins[-1].args[2], None, 0), p, "the parts kept for the main string must be the ones of all of the main string")
        ob("order", "roles", {"tag", "locale", "patterns"} <= set(r), p, "the formatter must keep the tag it was built for, its language and the parts: %s" % sorted(r))
        # groups of named strings are never skipped
        grp = any(ev.kind == "exhausted" and s.S.list_of(ev.args[0], s.S.kids) is not None and s.S.types(p, s.S.list_of(ev.args[0], s.S.kids)) == {"NamedGroup"} for ev in p.events)
        none = any(isinstance(f, T) and f.op in ("lt", "eq") and any(x.op == "len" and s.S.list_of(x.a[0], s.S.kids) is not None and s.S.types(p, s.S.list_of(x.a[0], s.S.kids)) == {"Root"} for x in subterms(f)) for f in p.facts)
        ob("order", "group", grp or none, p, "named strings must be built when there are any")
        s.kinds.setdefault("result", []).append((p, v, r))

    def vocabulary(s, ob):
        """Every documented keyword, option and value is accepted, with its meaning."""
        for (y, o), vals in OPTIONS.items():
            for val, want in vals.items():
                us = s.updates.get((y, o, val), [])
                ob("vocab", "accepted:%s:%s:%s" % (y, o, val), bool(us), None, "value %s of option %s of %s must be accepted" % (val, o, y))
                for p, lid, ch, term in us:
                    loc = s.kinds.get(("locs", y), {}).get((lid, o))
                    v = ch.get(loc)
                    others = {k for (l, n), k in s.kinds.get(("locs", y), {}).items() if l == lid and n != o}
                    okk = v is not None and is_some(v) and not (set(ch) & others)
                    if okk and o in ENUMS: okk = pay(v).op == "adt" and variant_name(s.P, pay(v)) == ENUMS[o][want] and not pay(v).a[2]
                    elif okk: okk = s.calendar(p, pay(v), term)
                    ob("vocab", "meaning:%s:%s:%s" % (y, o, val), okk, p, "%s %s of %s must be kept as such: %s" % (o, val, y, show(v)[:200] if v is not None else None))
        for y in KEYWORDS: ob("vocab", "keyword:%s" % y, len(s.roles.get(y, ())) == 1, None, "keyword %s must be accepted and lead to one kind of part: %s" % (y, s.roles.get(y)))
        ob("vocab", "keyword:none", len(s.roles.get("string", ())) == 1, None, "a placeholder without keyword must be accepted")
        ks = [s.roles.get(x) for x in list(KEYWORDS) + ["string", "text", "number", "command"] if len(s.roles.get(x, ())) == 1]
        ob("vocab", "distinct", len({tuple(x) for x in ks}) == len(ks), None, "parts of different meaning must be distinguishable")

    def calendar(s, p, v, value):
        """v is the locale of the formatter's language with the calendar named by value."""
        # set among the keywords of the language's locale
        w, path = v, []
        while w.op == "with" and len(w.a[1]) == 1: path, w = path + [w.a[1][0][0].split(".")[-1]], w.a[1][0][1]
        if path == ["extensions", "unicode", "keywords"] and w.op == "upd" and w.a[1].endswith("Keywords::set"):
            k, x = w.a[3][1:]
            key = [int(y.a[1]) for y in subterms(k) if y.op == "adt" and y.a[0].endswith("AsciiByte")]
            key = sorted(key) == [97, 99] and "#99(), AsciiByte#97" in show(k) or any(y.op == "c" and y.a[1] in ("ca", b"ca", (99, 97)) for y in subterms(k))
            x = x.a[0] if x.op == "fld" and x.a[1] == OK0 else None
            x = callm(x, "str::parse", "::try_from_bytes", "::from_str") if x is not None else None
            return bool(key and x and (x[0] is value or x[0].op == "c" and x[0].a[1] == consts(p, value)[0]) and names_language(s, v.a[0]) and w.a[0] is fldpath(v.a[0], ("icu_locid::Locale.extensions", "icu_locid::Extensions.unicode", "icu_locid::Unicode.keywords")))
        c = v.a[0] if v.op == "fld" and v.a[1] == OK0 else None
        if c is None or c.op != "call": return False
        if s.cfg != "ext" and any(isinstance(f, T) and f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0].endswith("str::find") and v2 == 1 for f, v2 in p.facts.items()): return True  # no language identifier has extensions
        t = [x for x in c.a[1]]
        want = [cstr("-u-ca-"), value]
        return any(x.op == "cat" and [y for y in x.a[0]][-2:] in (want,) and is_language(s, x.a[0][0]) and len(x.a[0]) == 3 for x in t) or any(x.op == "cat" and len(x.a[0]) == 2 and is_language(s, x.a[0][0]) and x.a[0][1].op == "c" and x.a[0][1].a[1] == "-u-ca-" + str(consts(p, value)[0]) for x in t)


def names_language(s, t):
    return t.op in ("call", "fld") and any(x.op == "call" and x.a[0].endswith("::icu_language") and x.a[1][-1] is s.tag for x in subterms(t))


def fldpath(t, path):
    for f in path: t = mk("fld", t, f)
    return t


def is_language(s, t):
    return names_language(s, t) and "to_string" in show(t)


def strip_loop(v):
    return v.a[2] if v.op == "upd" and v.a[1] == "loop" else None


def contains_node(q, N): return any(ev.kind == "next" and any(x is N for x in subterms(ev.args[0])) for ev in q.events)


def report(ctx, want, cfgs=("default", "sync")):
    for cfg in cfgs:
        B = Build(ctx, cfg)
        if not B.ok: continue
        for prop, key, okk, where, msg in B.analyse(cfg, want): ctx.ob(key, okk, where, msg)


# ---- formatting

ISO = (M + "formatter::decompose_iso_date", M + "formatter::decompose_iso_time")
PV = "i18n_utility::PlaceholderValue"
CATEGORIES = ["zero", "one", "two", "few", "many", "other"]


def callm(t, *suffix):
    """Arguments if t is a call of one of the functions."""
    return t.a[1] if isinstance(t, T) and t.op == "call" and t.a[0].endswith(suffix) else None


def okpay(t):
    """x of x.Ok.0"""
    return t.a[0] if isinstance(t, T) and t.op == "fld" and t.a[1] == OK0 else None


def somepay(t): return t.a[0] if isinstance(t, T) and t.op == "fld" and t.a[1] == SOME0 else None


class Fmt:
    """Paths of formatting with values, read against the parts that building makes."""
    def __init__(s, ctx, cfg):
        s.ctx = ctx
        s.B = Build(ctx, cfg)
        s.ok = s.B.ok
        if not s.ok: return
        s.B.analyse(cfg, ())
        s.P = s.B.P
        s.cfg = cfg
        s.roles = {k: next(iter(v)) for k, v in s.B.roles.items() if len(v) == 1}
        s.field_roles()
        s.entry = run(ctx, cfg, FORM + "::format", models=dict(QUIET), max_paths=60000, opaque=ISO)
        s.ok = s.entry is not None
        if not s.ok: return
        # the function that formats one string calls itself for the strings selected
        rec = {ev.name for p in s.entry[3] for ev in p.events if ev.kind == "rec" and ev.name.startswith("i18n_localiser")}
        s.ok = len(rec) == 1
        ctx.ob("%s:recursion" % cfg, s.ok, s.entry[0].where(), "one function must format a string and the strings it selects: %s" % sorted(rec))
        if not s.ok: return
        s.rname = next(iter(rec))
        r = run(ctx, cfg, s.rname, models=dict(QUIET), max_paths=60000, opaque=ISO, assume=s.nonempty)
        s.ok = r is not None
        if not s.ok: return
        s.fn, s.e, s.args, s.ps = r
        s.self, s.localiser, s.values, s.named = s.args
        s.memo = {}

    def field_roles(s):
        """Names of the formatter's fields by what building puts there."""
        s.F = {}
        for p, v, r in s.B.kinds.get("result", []):
            s.F.update({k: FORM + "." + n for k, n in r.items()})
            names = [f[0] for f in s.P.adts[FORM]["variants"][0][2]]
            for nm, f in zip(names, v.a[2]):
                for role in ("numbers", "selectors"):
                    w = s.B.kinds.get(role)
                    if w is not None and loopvar(w) is not None and loopvar(f) == loopvar(w): s.F[role] = FORM + "." + nm

    def nonempty(s, e, st, t, v):
        """A split has at least one piece; a delayed command has at least its name (building, C36)."""
        if t.op == "lt" and v == 0 and t.a[0] is cint(0) and t.a[1].op == "len" and t.a[1].a[0].op == "collect" and split_of(t.a[1].a[0]): return False
        if t.op == "more" and v == 0 and t.a[0].op == "iter" and t.a[0].a[0] == "src" and s.is_command(t.a[0].a[1]):
            return False
        return True

    def is_command(s, x):
        return "command" in s.roles and x.op == "fld" and x.a[1] == s.label(*s.roles["command"])

    def label(s, variant, i):
        v = s.P.adts[PART]["variants"][variant]
        return "%s@%s.%s" % (PART, v[0], v[2][i][0])

    def norm(s, t):
        """Term without the versions of self (only its numbers change, see unchanged)."""
        if isinstance(t, tuple): return tuple(s.norm(x) for x in t)
        if not isinstance(t, T): return t
        r = s.memo.get(t)
        if r is None:
            r = s.self if t.op == "upd" and strip(t) is s.self else mk(t.op, *[s.norm(x) for x in t.a])
            s.memo[t] = r
        return r

    def fld(s, role): return mk("fld", s.self, s.F.get(role, "?"))

    def facts(s, p):
        return {s.norm(k) if isinstance(k, T) else k: v for k, v in p.facts.items()}

    def string_of(s, name): return mk("fld", mk("call", "map.get", (s.fld("patterns"), name), None), SOME0)

    def part_at(s, t, name):
        """(index term or None) if t is a part of the string of this name."""
        if t.op == "idx" and t.a[0] is s.string_of(name): return t.a[1]
        if t.op == "elem" and t.a[0] is s.string_of(name): return t
        return None

    # ---- rules
    def analyse(s, k, want):
        out = []

        def ob(prop, key, okk, p, msg):
            out.append((prop, "%s:%s" % (k, key), okk, pt.last_line(s.fn, p.events) if p is not None else s.fn.where(), msg))
            return okk
        s.ob = ob
        if not ob("output", "fields", {"tag", "locale", "patterns", "numbers", "selectors"} <= set(s.F), None, "what building keeps must be recognised: %s" % sorted(s.F)): return [o for o in out if o[0] in want]
        need = {"text", "number", "string", "command"} | KEYWORDS
        if not ob("output", "parts", need <= set(s.roles), None, "the kinds of parts must be recognised: %s" % sorted(s.roles)): return [o for o in out if o[0] in want]
        s.main_loop()
        for p in s.ps:
            if p.kind == "panic": continue
            s.unchanged(p)
            s.path(p)
        for kind, n in s.seen.items(): ob("values", "formats:%s" % (kind,), n > 0, None, "a part of kind %s is never formatted" % (kind,))
        for kind, vs in s.ACCEPTED.items():
            for v in sorted(vs): ob("selection" if kind in ("plural", "ordinal", "select") else "values", "accepts:%s:%s" % (kind, v), (kind, v) in s.shown, None, "a value of type %s must be accepted for %s" % (v, kind))
        s.entry_rules()
        return [o for o in out if o[0] in want]

    def main_loop(s):
        s.lid = s.out = s.i = None
        s.shown = set()
        s.seen = {k: 0 for k in s.roles}
        oks = [p for p in s.ps if p.kind == "ret" and split_result(p)[0] == "ok"]
        for p in oks:
            v = split_result(p)[1]
            good = v.op == "hv" and v.a[2] is cstr("") and not v.a[1][1]
            s.ob("output", "result", good, p, "the result must be what the parts were formatted to: %s" % show(v)[:200])
            if good: s.lid, s.out = v.a[0], v.a[1]
        s.ob("output", "some-result", s.lid is not None and len({split_result(p)[1] for p in oks}) == 1, None, "formatting must be able to succeed, with one result")

    def unchanged(s, p):
        """Nothing of the formatter but its numbers changes."""
        for root, v in p.store.items():
            if root[0] != "o": continue
            x = s.norm(root[1])
            b = x
            while b.op in ("fld", "idx", "elem") or b.op == "call" and b.a[0] == "map.get": b = b.a[0] if b.op != "call" else b.a[1][0]
            if b is not s.self: continue
            if x.op == "idx" and x.a[0] is s.fld("numbers") or x is s.fld("numbers"): continue
            w = v
            while w.op == "upd" and w.a[1] in ("loop", s.rname): w = w.a[0]
            if w.op == "with" and w.a[0] is not None and all(l == s.F["numbers"] for l, _ in w.a[1]): continue
            s.ob("output", "unchanged", s.norm(w) is x or w is root[1], p, "formatting must not change the parts of a formatter: %s becomes %s" % (show(root[1])[:100], show(v)[:200]))

    def current(s, p, F):
        """Part being formatted on the path: (term, position)."""
        for f in F:
            if isinstance(f, T) and f.op == "discr" and f.a[1] == PART:
                x = s.part_at(f.a[0], s.named)
                if x is not None: return f.a[0], x
        return None

    def kind(s, part, F):
        """Kinds of part the path is about."""
        d = F.get(mk("discr", part, PART))
        ks = set()
        for k, role in s.roles.items():
            if d is not None and not isinstance(d, frozenset) and role[0] != d: continue
            if isinstance(d, frozenset) and role[0] in d: continue
            okk = True
            for r in (role[1] if isinstance(role[1], tuple) else ()):
                if r[0] == "=":
                    c = F.get(mk("discr", mk("fld", part, s.label(role[0], r[1])), r[2]))
                    if c is not None and (r[3] in c if isinstance(c, frozenset) else c != r[3]): okk = False
            if okk: ks.add(k)
        return ks

    def path(s, p):
        F = s.facts(p)
        cur = s.current(p, F)
        if cur is None: return s.no_part(p, F)
        part, pos = cur
        ks = s.kind(part, F)
        if p.kind == "ret" and split_result(p)[0] == "err":
            return s.error(p, F, part, ks)
        if p.kind == "loop" and p.info == s.lid:
            inloop = True
        elif p.kind == "loop":
            return s.inner(p, F, part, ks)
        else: return
        v = s.e.rd(p, s.out[0], s.out[1])
        v = s.norm(v)
        # the position moves by one, from the first part to the last
        if pos.op == "hv":
            nxt = s.norm(s.e.rd(p, pos.a[1][0], pos.a[1][1]))
            good = pos.a[0] == s.lid and pos.a[2] is cint(0) and nxt.op == "lin" and nxt.a[0] == 1 and len(nxt.a[1]) == 1 and nxt.a[1][0][1] == 1 and nxt.a[1][0][0].a[:2] == pos.a[:2]
        else:
            good = pos.op == "elem" and any(ev.kind == "next" and s.norm(ev.ret) is pos and ev.loops and ev.loops[-1] == s.lid and ev.extra.a[0] == "src" for ev in p.events)
        s.ob("output", "next-part", good, p, "the parts must be formatted one after the other from the first one: %s" % show(pos))
        pieces = v.a[0][1:] if v.op == "cat" and v.a[0][0].op == "hv" and v.a[0][0].a[0] == s.lid and v.a[0][0].a[1] == s.out else None
        s.ob("output", "appended", pieces is not None and len(pieces) == 1, p, "a part must add its text to the end of the result: %s" % show(v)[:300])
        if pieces is None or len(pieces) != 1: return
        s.ob("output", "kind", len(ks) == 1, p, "the kind of the part must be determined: %s" % sorted(ks))
        if len(ks) != 1: return
        k = next(iter(ks))
        s.seen[k] += 1
        if k in s.ACCEPTED: s.shown.add((k, s.variant(F, s.value(part, k)[1])))
        getattr(s, "f_" + ("selection" if k in ("plural", "ordinal", "select") else k))(p, F, part, pieces[0], k)

    def over(s, ev, L):
        """All elements of L were iterated, or all of their positions."""
        if ev.kind != "exhausted" or not ev.loops or ev.extra.a[0] != "src": return False
        x = s.norm(ev.args[0])
        r = range_bounds(x)
        return x is L or r is not None and r[0] is cint(0) and r[1] is mk("len", L)

    def no_part(s, p, F):
        if p.kind != "ret": return
        r, v = split_result(p)
        if r == "ok":
            # only after the last part
            L = s.string_of(s.named)
            end = any(isinstance(f, T) and f.op == "lt" and f.a[0].op == "hv" and f.a[0].a[0] == s.lid and f.a[1] is mk("len", L) and w == 0 for f, w in F.items()) or \
                any(s.over(ev, L) and ev.loops[-1] == s.lid for ev in p.events)
            s.ob("output", "all-parts", end, p, "the result must be given only after the last part was formatted")
            return
        nm = variant_name(s.P, v) if v.op == "adt" else None
        g = F.get(mk("discr", mk("call", "map.get", (s.fld("patterns"), s.named), None), OPT))
        far = any(isinstance(f, T) and f.op == "lt" and f.a[1] is mk("len", s.string_of(s.named)) and w == 0 for f, w in F.items())
        s.ob("values", "error:%s" % nm, nm == "PatternNamed" and g == 0 or nm == "PatternPart" and (far or g == 0), p, "formatting must not fail with %s before a part is formatted" % show(v)[:200])

    def value(s, part, role):
        """(lookup, value) of the placeholder of the part."""
        v, fs = s.roles[role]
        i = dict((r[0], r[1]) for r in fs if r[0] != "=")["placeholder"]
        g = mk("call", "map.get", (s.values, mk("fld", part, s.label(v, i))), None)
        return g, mk("fld", g, SOME0)

    def opt(s, part, role, name):
        v, fs = s.roles[role]
        i = dict((r[0], r[1]) for r in fs if r[0] != "=").get(name)
        return None if i is None else mk("fld", part, s.label(v, i))

    def variant(s, F, V):
        d = F.get(mk("discr", V, PV))
        return s.P.adts[PV]["variants"][d][0] if isinstance(d, int) else None

    def payload(s, V, nm, i=0): return mk("fld", V, "%s@%s.%d" % (PV, nm, i))

    def f_text(s, p, F, part, x, k):
        s.ob("output", "text", x is mk("fld", part, s.label(*s.roles["text"])), p, "a text must appear as it is: %s" % show(x)[:200])

    def f_number(s, p, F, part, x, k):
        s.ob("number", "shown", x is mk("idx", s.fld("numbers"), mk("fld", part, s.label(*s.roles["number"]))), p, "a number sign must show the number of its own slot: %s" % show(x)[:200])

    def text_of(s, F, V, x):
        """x is the text of the string value V."""
        nm = s.variant(F, V)
        if nm == "String": return x is s.payload(V, nm)
        if nm == "TaggedString": return x.op == "fld" and x.a[1] == "i18n_utility::TaggedString." + orig_string(s.P) and x.a[0] is s.payload(V, nm)
        if nm == "Localised": return x is s.payload(V, nm) or x.op == "fld" and x.a[0] is s.payload(V, nm) and x.a[1].endswith("." + orig_string(s.P))
        return False

    def f_string(s, p, F, part, x, k):
        g, V = s.value(part, k)
        s.ob("values", "string:%s" % s.variant(F, V), s.text_of(F, V, x), p, "a string placeholder must show the text of its value: %s" % show(x)[:200])

    def locale(s, t):
        a = callm(t, "::from", "::into")
        return a is not None and len(a) == 1 and a[0] is s.fld("locale")

    def number(s, F, V, x):
        """x is the decimal number of the value V."""
        nm = s.variant(F, V)
        if nm in ("Integer", "Unsigned"):
            a = callm(x, "::from")
            return a is not None and a[0] is s.payload(V, nm) and "FixedDecimal" in x.a[0]
        if nm == "Float":
            c = okpay(x)
            a = callm(c, "FixedDecimal::try_from_f64") if c is not None else None
            return a is not None and a[0] is s.payload(V, nm) and variant_name(s.P, a[1]) == "Floating"
        return nm == "FixedDecimal" and x is s.payload(V, nm)

    def decimal_text(s, x):
        """(options, number) of the text of a number formatted for the formatter's language."""
        a = x.a[1] if x.op == "call" and x.a[0].endswith("to_string") else (x.a if x.op == "to_string" else None)
        f = callm(x, "FixedDecimalFormatter::format_to_string") or (callm(a[0], "FixedDecimalFormatter::format") if a else None)
        if f is None: return None
        n = okpay(f[0])
        c = callm(n, "FixedDecimalFormatter::try_new") if n is not None else None
        if c is None or not s.locale(c[0]): return None
        return c[1], f[1]

    def f_decimal(s, p, F, part, x, k):
        g, V = s.value(part, k)
        d = s.decimal_text(x)
        if not s.ob("values", "decimal-form", d is not None, p, "a number must be formatted by ICU for the language of the string: %s" % show(x)[:300]): return
        o, n = d
        sg, gr = s.opt(part, k, "sign"), s.opt(part, k, "group")
        ds, dg = F.get(mk("discr", sg, OPT)), F.get(mk("discr", gr, OPT))
        base = n
        if ds == 1:
            good = n.op == "upd" and n.a[1].endswith("apply_sign_display") and n.a[3][-1] is mk("fld", sg, SOME0)
            base = n.a[0] if n.op == "upd" else n
            cw = callm(n, "FixedDecimal::with_sign_display")
            if cw: good, base = cw[1] is mk("fld", sg, SOME0), cw[0]
            s.ob("values", "sign", good, p, "the sign option must be applied to the number: %s" % show(n)[:200])
        else: s.ob("values", "sign", ds == 0 and n.op != "upd", p, "no sign option must be applied when none is given: %s" % show(n)[:200])
        if dg == 1:
            want = mk("fld", gr, SOME0)
            good = o.op == "with" and dict(o.a[1]).get("icu_decimal::FixedDecimalFormatterOptions.grouping_strategy") is want and len(o.a[1]) == 1 or o.op == "call" and o.a[0].endswith("::from") and o.a[1][0] is want
            s.ob("values", "group", good, p, "the group option must be used: %s" % show(o)[:200])
        else: s.ob("values", "group", dg == 0 and callm(o, "::default") is not None, p, "the default options must be used when none is given: %s" % show(o)[:200])
        s.ob("values", "decimal:%s" % s.variant(F, V), s.number(F, V, base), p, "the number of the value must be shown: %s" % show(base)[:200])

    def length(s, F, part, t, name):
        o = s.opt(part, "date_time", name)
        d = F.get(mk("discr", o, OPT))
        if d == 1: return t is mk("fld", o, SOME0)
        return d == 0 and t.op == "adt" and variant_name(s.P, t) == "Medium" and t.a[0].endswith("::" + name.capitalize())

    def datelocale(s, F, part, t):
        o = s.opt(part, "date_time", "calendar")
        d = F.get(mk("discr", o, OPT))
        if d == 1:
            a = callm(t, "::from", "::into")
            return a is not None and a[0] is mk("fld", o, SOME0)
        return d == 0 and s.locale(t)

    def iso_piece(s, F, V, t, which):
        """t is the date or time text of the string value V."""
        S = s.payload(V, "String")
        two = s.two_pieces(F, S)
        if t.op == "idx" and t.a[0].op == "collect" and split_of(t.a[0]) == (S, ord("T")):
            return t.a[1] is cint(0) if which == "date" else two and t.a[1] is cint(1)
        if t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[1] == SOME0 and callm(t.a[0].a[0], "str::split_once") and t.a[0].a[0].a[1][0] is S and t.a[0].a[0].a[1][1] in (cint(ord("T")), cstr("T")):
            return t.a[1] == ("tuple.0" if which == "date" else "tuple.1")
        return which == "date" and not two and t is S

    def two_pieces(s, F, S):
        for f, v in F.items():
            if not isinstance(f, T): continue
            if f.op == "eq" and f.a[0].op == "len" and f.a[0].a[0].op == "collect" and split_of(f.a[0].a[0]) == (S, ord("T")) and f.a[1] is cint(2): return v == 1
            if f.op == "discr" and callm(f.a[0], "str::split_once") and f.a[0].a[1][0] is S: return v == 1
        for f, v in F.items():
            if isinstance(f, tuple) and f[0] == "iv" and isinstance(f[1], T) and s.norm(f[1]).op == "len" and split_of(s.norm(f[1]).a[0]) == (S, ord("T")): return v[0] == v[1] == 2
        return False

    def date(s, F, V, t):
        nm = s.variant(F, V)
        if nm == "Date": return t is s.payload(V, nm)
        a = okpay(t)
        a = callm(a, "decompose_iso_date") if a is not None else None
        return nm == "String" and a is not None and s.iso_piece(F, V, a[0], "date")

    def time(s, F, V, t):
        nm = s.variant(F, V)
        if nm == "Time": return t is s.payload(V, nm)
        a = okpay(t)
        a = callm(a, "decompose_iso_time") if a is not None else None
        return nm == "String" and a is not None and s.iso_piece(F, V, a[0], "time")

    def f_date_time(s, p, F, part, x, k):
        g, V = s.value(part, k)
        nm = s.variant(F, V)
        c = okpay(x)
        good = False
        what = None
        S = s.payload(V, "String")
        if c is not None and callm(c, "DateTimeFormatter::format_to_string"):
            f, d = c.a[1]
            m = callm(okpay(f), "DateTimeFormatter::try_new") if okpay(f) is not None else None
            what = "datetime"
            if m is not None and s.datelocale(F, part, m[0]):
                b = callm(m[1], "::from", "::into")
                b = callm(b[0], "Bag::from_date_time_style") if b else None
                good = b is not None and s.length(F, part, b[0], "date") and s.length(F, part, b[1], "time")
                d = callm(d, "DateTime::to_any")
                if good and d and nm == "DateTime": good = d[0] is s.payload(V, nm)
                elif good and d:
                    n = callm(d[0], "DateTime::new")
                    good = n is not None and s.date(F, V, n[0]) and s.time(F, V, n[1]) and s.two_pieces(F, S)
                else: good = False
        elif c is not None and callm(c, "::DateFormatter::format_to_string"):
            f, d = c.a[1]
            what = "date"
            m = callm(okpay(f), "::DateFormatter::try_new_with_length") if okpay(f) is not None else None
            d = callm(d, "Date::to_any")
            good = m is not None and d is not None and s.datelocale(F, part, m[0]) and s.length(F, part, m[1], "date") and s.date(F, V, d[0]) and (nm == "Date" or not s.two_pieces(F, S))
        elif callm(x, "TimeFormatter::format_to_string") or c is not None and callm(c, "TimeFormatter::format_to_string"):
            f, d = (x if callm(x, "TimeFormatter::format_to_string") else c).a[1]
            what = "time"
            m = callm(okpay(f), "TimeFormatter::try_new_with_length") if okpay(f) is not None else None
            good = m is not None and s.datelocale(F, part, m[0]) and s.length(F, part, m[1], "time") and s.time(F, V, d)
            if nm == "String" and good:
                good = any(isinstance(f2, T) and f2.op == "eq" and v2 == 1 and (f2.a[1] is cint(0) and f2.a[0].op == "len" and s.iso_piece(F, V, f2.a[0].a[0], "date") or
                           cstr("") in f2.a[:2] and any(isinstance(y, T) and s.iso_piece(F, V, y, "date") for y in f2.a[:2])) for f2, v2 in F.items())
        s.ob("values", "date_time:%s:%s" % (nm, what), good, p, "a date or time must be formatted by ICU with the value, the calendar and the lengths asked for: %s" % show(x)[:500])

    def selectors(s, part, k):
        v, fs = s.roles[k]
        i = dict((r[0], r[1]) for r in fs if r[0] != "=")["selectors"]
        return mk("idx", s.fld("selectors"), mk("fld", part, s.label(v, i)))

    def selector(s, p, F, part, k):
        """Key by which the value selects, or None if it is not recognised."""
        g, V = s.value(part, k)
        nm = s.variant(F, V)
        if k == "select":
            if nm == "String": return [s.payload(V, nm)]
            sel = s.selectors(part, k)
            keys = [f.a[0].a[1][1] for f in F if isinstance(f, T) and f.op == "discr" and callm(f.a[0], "map.get") and f.a[0].a[1][0] is sel]
            return [x for x in keys if s.text_of(F, V, x)]
        for f, v in F.items():
            if isinstance(f, T) and f.op == "discr" and callm(f.a[0], "PluralRules::category_for") and isinstance(v, int):
                rules, num = f.a[0].a[1]
                c = okpay(rules)
                c = callm(c, "PluralRules::try_new_cardinal" if k == "plural" else "PluralRules::try_new_ordinal") if c is not None else None
                if c is not None and s.locale(c[0]) and s.number(F, V, num): return [cstr(s.P.adts["icu_plurals::PluralCategory"]["variants"][v][0].lower())]
        return []

    def selected(s, p, F, part, k):
        """Names of strings that may be formatted for the part on this path."""
        sel = s.selectors(part, k)
        out = []
        for key in s.selector(p, F, part, k):
            own = mk("call", "map.get", (sel, key), None)
            d = F.get(mk("discr", own, OPT))
            if d == 1: out.append(mk("fld", own, SOME0))
            oth = mk("call", "map.get", (sel, cstr("other")), None)
            if d == 0 and F.get(mk("discr", oth, OPT)) == 1: out.append(mk("fld", oth, SOME0))
        return out

    def f_selection(s, p, F, part, x, k):
        c = okpay(x)
        good = c is not None and c.op == "call" and c.a[0] == s.rname
        if not s.ob("selection", "string:%s" % k, good, p, "a selection must show the formatted string that was selected: %s" % show(x)[:200]): return
        a = c.a[1]
        s.ob("selection", "same-values", a[1] is s.localiser and a[2] is s.values and s.norm(a[0]) is s.self, p, "a selected string must be formatted with the same values")
        names = s.selected(p, F, part, k)
        g, V = s.value(part, k)
        s.ob("selection", "selected:%s:%s" % (k, s.variant(F, V)), any(a[3] is n for n in names), p, "the string selected by the value, or else by other, must be shown: %s is" % show(a[3])[:300])
        if k == "select": return
        # before it is formatted all of its number signs are given the number
        nm = s.norm(a[3])
        i = [j for j, ev in enumerate(p.events) if ev.kind == "rec" and ev.name == s.rname]
        L = s.string_of(nm)
        ends = [f for f, w in F.items() if isinstance(f, T) and f.op == "lt" and w == 0 and f.a[0].op == "hv" and f.a[0].a[2] is cint(0) and f.a[1] is mk("len", L)]
        lids = {f.a[0].a[0]: f.a[0] for f in ends}
        for j, ev in enumerate(p.events):
            if s.over(ev, L) and i and j < i[-1]: lids[ev.loops[-1]] = None
        s.ob("number", "all-signs:%s" % k, any(s.sets_numbers(l, h, nm, F, part, k, p) for l, h in lids.items()) or s.sets_collected(p, L, i[-1] if i else 0, k), p, "all number signs of the selected string must be given the number before it is shown")

    def sets_numbers(s, lid, h, name, F, part, k, p):
        """Every iteration of the loop over the parts of the string sets the slot if the part is a number sign."""
        its = [q for q in s.ps if q.kind == "loop" and q.info == lid]
        some_ = False
        for q in its:
            G = s.facts(q)
            cur = s.current(q, G)
            if cur is None: return False
            here = [f.a[0] for f in G if isinstance(f, T) and f.op == "discr" and f.a[1] == PART and f.a[0] is not cur[0]]
            if not here: return False
            t = here[-1]
            pos = t.a[1] if t.op == "idx" else t
            if h is not None:
                nxt = s.norm(s.e.rd(q, h.a[1][0], h.a[1][1]))
                if not (nxt.op == "lin" and nxt.a[0] == 1 and len(nxt.a[1]) == 1 and nxt.a[1][0][1] == 1 and nxt.a[1][0][0].op == "hv" and nxt.a[1][0][0].a[:2] == h.a[:2]): return False
                if not (pos.op == "hv" and pos.a[:2] == h.a[:2]): return False
            else:
                nx = [ev for ev in q.events if ev.kind == "next" and ev.loops and ev.loops[-1] == lid]
                if len(nx) != 1 or s.norm(nx[0].ret) is not s.norm(pos): return False
            d = G.get(mk("discr", t, PART))
            role = s.roles["number"]
            isnum = d == role[0] if isinstance(d, int) else (role[0] not in d if isinstance(d, frozenset) else None)
            if isnum is None: return False
            if not isnum: continue
            kq = s.kind(cur[0], G)
            if kq != {k}: continue
            slot = mk("idx", s.fld("numbers"), mk("fld", t, s.label(*role)))
            w = None
            for root, v in q.store.items():
                if root[0] == "o" and s.norm(root[1]) is slot: w = s.norm(v)
            if w is None: return False
            dt = s.decimal_text(w)
            g, V = s.value(cur[0], k)
            if dt is None or callm(dt[0], "::default") is None or not s.number(G, V, dt[1]): return False
            if s.norm(t.a[0]) not in [s.string_of(n) for n in s.selected(q, G, cur[0], k)]: return False
            some_ = True
        return some_

    def sets_collected(s, p, L, before, k):
        """The number signs of the string are first listed, then each listed slot is set."""
        role = s.roles["number"]
        for j, ev in enumerate(p.events[:before]):
            if ev.kind != "exhausted" or not ev.loops or ev.extra.a[0] != "src": continue
            W = ev.args[0]
            if not (W.op == "upd" and W.a[1] == "loop" and W.a[0].op == "arr" and not W.a[0].a[0] and W.a[3]): continue
            lid, loc, l2 = W.a[2], W.a[3][0], ev.loops[-1]
            ends = [x for x in p.events[:j] if lid in x.loops and s.over(x, L)]
            if not ends: continue
            # every number sign is listed
            its = [q for q in s.ps if q.kind == "loop" and q.info in (lid, ends[-1].loops[-1])]
            good, listed = bool(its), 0
            for q in its:
                G = s.facts(q)
                cur = s.current(q, G)
                if cur is None or s.kind(cur[0], G) != {k}: continue
                nx = [x for x in q.events if x.kind == "next" and x.loops == ends[-1].loops]
                t = [f.a[0] for f in G if isinstance(f, T) and f.op == "discr" and f.a[1] == PART and f.a[0] is not cur[0] and nx and any(y is s.norm(nx[-1].ret) for y in subterms(f.a[0]))]
                if not t or s.norm(nx[-1].args[0]) is not L and s.norm(t[-1].a[0]) is not L:
                    good = good and bool(nx) and s.norm(nx[-1].args[0]) is not L
                    continue
                d = G.get(mk("discr", t[-1], PART))
                isnum = d == role[0] if isinstance(d, int) else (role[0] not in d if isinstance(d, frozenset) else None)
                w = s.e.rd(q, loc[0], loc[1])
                if isnum: good, listed = good and w.op == "upd" and w.a[0] is W and w.a[1] == "push" and s.norm(w.a[3][0]) is mk("fld", t[-1], s.label(*role)), listed + 1
                else: good = good and isnum is not None and w is W
            # every listed slot is given the number
            n = 0
            for q in s.ps:
                if not (q.kind == "loop" and q.info == l2): continue
                G = s.facts(q)
                cur = s.current(q, G)
                if cur is None or s.kind(cur[0], G) != {k}: continue
                nx = [x for x in q.events if x.kind == "next" and x.loops and x.loops[-1] == l2]
                if not nx or nx[-1].args[0] is not W: continue
                slot = mk("idx", s.fld("numbers"), s.norm(nx[-1].ret))
                w = None
                for root, v in q.store.items():
                    if root[0] == "o" and s.norm(root[1]) is slot: w = s.norm(v)
                dt = s.decimal_text(w) if w is not None else None
                g, V = s.value(cur[0], k)
                good = good and dt is not None and callm(dt[0], "::default") is not None and s.number(G, V, dt[1])
                n += 1
            if good and listed and n: return True
        return False

    def inner(s, p, F, part, ks): pass

    def f_command(s, p, F, part, x, k):
        c = okpay(x)
        if not s.ob("command", "result", c is not None and c.op == "call" and c.a[0] == "<indirect>" and len(c.a[1]) == 2, p, "a delayed command must show what its function returns: %s" % show(x)[:200]): return
        L = mk("fld", part, s.label(*s.roles["command"]))
        f, a = c.a[1]
        g = somepay(f)
        g = callm(g, "map.get") if g is not None else None
        nx = [ev for ev in p.events if ev.kind == "next" and s.norm(ev.args[0]) is L]
        first = [s.norm(ev.ret) for ev in nx if ev.extra.a[0] == "src"]
        name = [mk("fld", y, "%s@String.0" % PV) for y in first + [mk("idx", L, cint(0))]]
        s.ob("command", "function", g is not None and any(y is s.localiser for y in subterms(g[0])) and g[1] in name, p, "the function run must be the one registered with the localiser under the name of the command: %s" % show(f)[:300])
        good = a.op == "upd" and a.a[1] == "loop"
        if good:
            b, lid = a.a[0], a.a[2]
            h = b.a[3][0] if b.op == "upd" and b.a[1] == "push" and b.a[0] is mk("arr", ()) else b.a[0][0] if b.op == "arr" and len(b.a[0]) == 1 else None
            h = s.norm(h) if h is not None else None
            good = h is not None and (h in first or h is mk("idx", L, cint(0)) or h.op == "adt" and variant_name(s.P, h) == "String" and h.a[2][0] in name)
            ex = [ev for ev in p.events if ev.kind == "exhausted" and ev.loops and ev.loops[-1] == lid]
            full = lambda it: it.a[0] == "skip" and it.a[1].a[0] == "src" and it.a[2] is cint(1) and s.norm(it.a[1].a[1]) is L
            good = good and bool(ex) and full(ex[-1].extra)
            its = [q for q in s.ps if q.kind == "loop" and q.info == lid]
            good = good and bool(its)
            for q in its:
                G = s.facts(q)
                qn = [ev for ev in q.events if ev.kind == "next" and ev.loops and ev.loops[-1] == lid]
                pu = [ev for ev in q.events if ev.kind == "call" and ev.name == "alloc::Vec::push" and ev.loops and ev.loops[-1] == lid]
                if len(qn) != 1 or len(pu) != 1 or not full(qn[0].extra): good = False; break
                el, y = s.norm(qn[0].ret), s.norm(pu[0].args[1])
                look = mk("call", "map.get", (s.values, mk("fld", el, "%s@String.0" % PV)), None)
                d = G.get(mk("discr", look, OPT))
                if not (d == 1 and y is mk("fld", look, SOME0) or d == 0 and (y is el or y.op == "adt" and variant_name(s.P, y) == "String" and y.a[2][0] is mk("fld", el, "%s@String.0" % PV))): good = False
        s.ob("command", "arguments", good, p, "a delayed command must get its name and its parameters in order, each replaced by the value of the placeholder of that name if there is one: %s" % show(a)[:300])

    ACCEPTED = {"string": {"String", "TaggedString", "Localised"}, "decimal": {"Integer", "Unsigned", "Float", "FixedDecimal"}, "date_time": {"DateTime", "Date", "Time", "String"},
                "plural": {"Integer", "Unsigned", "Float", "FixedDecimal"}, "ordinal": {"Unsigned"}, "select": {"String", "TaggedString", "Localised"}}

    def error(s, p, F, part, ks):
        v = split_result(p)[1]
        nm = variant_name(s.P, v) if v.op == "adt" else None
        a = [s.norm(x) for x in v.a[2]] if v.op == "adt" else []
        good = bool(ks) and all(s.justified(p, F, part, k, v, nm, a) for k in ks)
        # the error of a selected string, or of one of its parts, is passed on as it is
        if v.op == "fld" and v.a[1] == ERR0 and v.a[0].op == "call" and v.a[0].a[0] in (s.rname,) + ISO: good = True
        prop = "command" if ks == {"command"} else "selection" if nm == "SelectorsIndexNamed" else "values"
        s.ob(prop, "error:%s:%s" % ("/".join(sorted(ks)), nm), good, p, "formatting must not fail with %s here" % show(v)[:300])

    def justified(s, p, F, part, k, v, nm, a):
        """Formatting a part of kind k may fail with this error on this path."""
        if k in KEYWORDS or k == "string":
            g, V = s.value(part, k)
            d = F.get(mk("discr", g, OPT))
            vn = s.variant(F, V)
            left = F.get(mk("discr", V, PV))
            names = [x[0] for x in s.P.adts[PV]["variants"]]
            may = {names[left]} if isinstance(left, int) else set(names) - {names[i] for i in left} if isinstance(left, frozenset) else set(names)
            if nm == "PlaceholderValue": return d == 0 and any(x is g.a[1][1] for x in a)
            if nm == "InvalidValue": return d == 1 and not may & s.ACCEPTED[k]
            if nm == "FixedDecimal": return vn == "Float" and inner_error(a[0], "try_from_f64")
            if nm == "Decimal": return k in ("decimal", "plural", "ordinal") and inner_error(a[0], "FixedDecimalFormatter::try_new")
            if nm == "PluralRules": return k in ("plural", "ordinal") and inner_error(a[0], "PluralRules::try_new_cardinal", "PluralRules::try_new_ordinal")
            if nm == "DateTime": return k == "date_time" and inner_error(a[0], "Formatter::try_new", "Formatter::try_new_with_length", "Formatter::format_to_string")
            if nm == "NoIcuProvider": return any(isinstance(f, T) and f.op == "discr" and f.a[1].endswith("DataProvider") for f in F)
            if nm == "SelectorsIndex": return any(isinstance(f, T) and f.op == "lt" and f.a[1] is mk("len", s.fld("selectors")) and w == 0 for f, w in F.items())
            if nm == "SelectorsIndexNamed":
                sel = s.selectors(part, k)
                return any(F.get(mk("discr", mk("call", "map.get", (sel, key), None), OPT)) == 0 and F.get(mk("discr", mk("call", "map.get", (sel, cstr("other")), None), OPT)) == 0 for key in s.selector(p, F, part, k))
            if nm in ("PatternNamed", "PatternPart", "NumberSignString"):
                return any(isinstance(f, T) and (f.op == "lt" and f.a[1].op == "len" and w == 0 or f.op == "discr" and callm(f.a[0], "map.get") and f.a[0].a[1][0] is s.fld("patterns") and w == 0) for f, w in F.items())
            return False
        if k == "number": return nm == "NumberSignString" and F.get(mk("lt", mk("fld", part, s.label(*s.roles["number"])), mk("len", s.fld("numbers")))) == 0
        if k == "command":
            if nm == "Command": return a[0].op == "fld" and a[0].a[1] == ERR0 and a[0].a[0].a[0] == "<indirect>" or a[0].op == "adt" and variant_name(s.P, a[0]) == "NotFound"
            if nm == "NeverReached": return any(isinstance(f, T) and f.op == "discr" and f.a[1] == PV and (isinstance(w, frozenset) and 0 in w or isinstance(w, int) and w != 0) for f, w in F.items())
        return False

    def entry_rules(s):
        """The public operation formats the main string after forgetting the numbers of earlier formatting."""
        r = run(s.ctx, s.cfg, FORM + "::format", models=dict(QUIET), opaque=(s.rname,))
        if r is None: return
        fn, e, a, ps = r
        sf, loc, vals = a
        numbers = mk("fld", sf, s.F["numbers"])
        resets = {}
        for p in ps:
            if p.kind == "loop":
                nx = [ev for ev in p.events if ev.kind == "next" and ev.loops and ev.loops[-1] == p.info]
                if len(nx) == 1 and strip(nx[0].args[0]) is numbers and nx[0].extra.a[0] == "src":
                    el = nx[0].ret
                    w = p.store.get(("o", el))
                    good = w is cstr("") or any(ev.kind == "call" and ev.name == "alloc::String::clear" and strip(ev.args[0]) is el for ev in p.events)
                    resets[p.info] = resets.get(p.info, True) and good
        for p in ps:
            if p.kind != "ret": continue
            where = lambda okk, key, msg: s.ob("output" if key != "stale" else "number", "entry-" + key, okk, p, msg)
            cs = [(j, ev) for j, ev in enumerate(p.events) if ev.kind == "call" and ev.name == s.rname]
            if not where(len(cs) == 1, "once", "the main string must be formatted once"): continue
            j, c = cs[0]
            where(strip(c.args[0]) is sf and c.args[1] is loc and c.args[2] is vals and c.args[3] is cstr("_"), "main", "the main string must be formatted with the values given")
            res, v = split_result(p)
            if res == "ok":
                good = v.op == "tup" and v.a[0][0] is mk("fld", c.ret, OK0) and v.a[0][1].op == "fld" and v.a[0][1].a[1] == s.F["tag"] and strip(v.a[0][1].a[0]) is sf
                where(good, "result", "the result must be the text of the main string and the tag of its language: %s" % show(v)[:200])
            else: where(v is mk("fld", c.ret, ERR0), "error", "an error of formatting must be passed on: %s" % show(v)[:200])
            before = p.events[:j]
            st = strip(p.store.get(("o", sf), sf))
            fresh = any(ev.kind == "exhausted" and strip(ev.args[0]) is numbers and ev.loops and resets.get(ev.loops[-1]) for ev in before)
            where(fresh, "stale", "numbers of earlier formatting must be forgotten before a string is formatted")


def inner_error(t, *names): return t.op == "fld" and t.a[1] == ERR0 and callm(t.a[0], *names) is not None


def split_of(t):
    """(text, separator) of a split into a list."""
    if t.op != "collect" or t.a[0].op != "iter" or t.a[0].a[0] != "src": return None
    a = callm(t.a[0].a[1], "str::split")
    if not a: return None
    x = a[1]
    return a[0], (ord(x.a[1]) if isinstance(x.a[1], str) and len(x.a[1]) == 1 else x.a[1]) if x.op == "c" else None


def loopvar(t):
    """Variable a list built in loops is kept in."""
    while t.op == "upd":
        if t.a[1] == "loop" and t.a[3]: return t.a[3][0]
        t = t.a[0]
    return None


def orig_string(P):
    """Field of a tagged string that holds the text."""
    vs = P.adts["i18n_utility::TaggedString"]["variants"][0][2]
    return [f[0] for f in vs if f[0] == "string"][0] if any(f[0] == "string" for f in vs) else vs[0][0]


def report2(ctx, want):
    B = Fmt(ctx, "full")
    if not B.ok: return
    for prop, key, okk, where, msg in B.analyse("full", want): ctx.ob(key, okk, where, msg)


def c30(ctx):
    """Nothing panics."""
    def each(key, ps):
        for p in ps:
            if p.kind == "panic":
                why, args, fn, line, _ = p.info
                ctx.ob("%s:%s:%s" % (key, why, fn.nice.split("::")[-1]), False, fn.where(line), "%s can panic (%s: %s)" % (key, why, ", ".join(show(x)[:80] for x in args)))
            else: ctx.ob(key + ":" + p.kind, True, "", "")
    for cfg in ("default", "sync"):
        r = construct(ctx, cfg)
        if r: each(cfg + ":building", r[3])
    F = Fmt(ctx, "full")
    if not F.ok: return
    each("full:building", F.B.ps)
    each("full:formatting", F.ps)
    r = run(ctx, "full", FORM + "::format", models=dict(QUIET), opaque=(F.rname,))
    if r: each("full:entry", r[3])
    for fn in ISO:
        r = run(ctx, "full", fn, models=dict(QUIET))
        if r: each("full:" + fn.split("_")[-1], r[3])


def c31(ctx):
    """The pattern vocabulary: what is accepted, with which meaning, and how everything else is refused."""
    report(ctx, ("vocab",), ("default", "sync", "ext"))


def c32(ctx):
    """Pieces and parts correspond in order, and the result is their texts in order."""
    report(ctx, ("order",))
    report2(ctx, ("output",))


def c33(ctx): report2(ctx, ("values",))


def c34(ctx): report2(ctx, ("selection", "number"))


def c35(ctx):
    """No circular selection: what a string selects was built before it, and formatting follows selectors only."""
    report(ctx, ("cycle",))
    F = Fmt(ctx, "full")
    if not F.ok: return
    for p in F.ps:
        for ev in p.events:
            if ev.kind != "rec" or ev.name != F.rname: continue
            x = F.norm(ev.args[3])
            g = x.a[0] if x.op == "fld" and x.a[1] == SOME0 else None
            m = g.a[1][0] if g is not None and g.op == "call" and g.a[0] == "map.get" else None
            good = m is not None and m.op in ("idx", "elem") and m.a[0] is F.fld("selectors")
            ctx.ob("full:follows", good, "%s:%s" % (ev.fn.file, ev.line) if hasattr(ev.fn, "file") else F.fn.where(), "formatting may go on only with a string named by the selectors: %s" % show(x)[:200])
    for prop, key, okk, where, msg in F.analyse("full", ("output",)):
        if key.split(":")[1] in ("unchanged", "next-part"): ctx.ob(key, okk, where, msg)


def c36(ctx):
    """Commands run at once or with the values, with their parameters in order."""
    report(ctx, ("command",))
    report2(ctx, ("command",))


# ---- ISO 8601 texts

class Iso:
    """Pieces of a text that are read as numbers."""
    def __init__(s, p, text):
        s.p, s.text = p, text
        s.F = p.facts

    def base(s, t):
        """t is the text without plus signs in front."""
        a = callm(t, "str::trim_start_matches")
        if a: return s.base(a[0]) and chars(a[1]) == {"+"}
        g = somepay(t)
        a = callm(g, "str::strip_prefix") if g is not None else None
        if a: return s.base(a[0]) and chars(a[1]) == {"+"}
        return t is s.text

    def number(s, t):
        """Text that t is the number of."""
        c = okpay(t)
        a = callm(c, "from_str", "str::parse") if c is not None else None
        return a[0] if a else None

    def piece(s, t):
        """("piece", k): between dashes k and k+1 of the base; ("cut", a, b): bytes of the base; ("neg", piece); None"""
        if s.base(t): return ("cut", 0, None)
        if t.op == "idx" and t.a[1].op == "c":
            d = split_of(t.a[0])
            if d and s.base(d[0]) and d[1] == 45: return ("piece", t.a[1].a[1]) if s.count(t.a[0]) != (1, 1) else ("cut", 0, None)
        if t.op == "cat" and len(t.a[0]) == 2 and t.a[0][0].op == "c" and t.a[0][0].a[1] in ("-", 45):
            return ("neg", s.piece(t.a[0][1]))
        r = s.range(t)
        if r and s.whole(r[0]): return ("cut",) + r[1:]
        return None

    def whole(s, t):
        """The base, or its only piece."""
        return s.base(t) or t.op == "idx" and s.piece(t) == ("cut", 0, None)

    def range(s, t):
        """(text, from, to) of a part of a text."""
        g = somepay(t)
        a = callm(g, "str::get") if g is not None else None
        if a is None and t.op == "slice": a = t.a
        if a is None or a[1].op != "adt": return None
        k = [x.a[1] if x.op == "c" else x for x in a[1].a[2]]
        nm = a[1].a[0].split("::")[-1]
        if nm == "RangeTo": return a[0], 0, k[0]
        if nm == "RangeFrom": return a[0], k[0], None
        if nm == "Range": return a[0], k[0], k[1]
        return None

    def count(s, l): return s.F.get(("iv", mk("len", l))) or s.pieces()

    def pieces(s):
        """(least, greatest) number of pieces between dashes known on the path."""
        lo, hi = 1, None
        for f, v in s.F.items():
            if isinstance(f, tuple) and f[0] == "iv" and f[1].op == "len":
                d = split_of(f[1].a[0])
                if d and s.base(d[0]) and d[1] == 45:
                    lo = max(lo, v[0] or 0)
                    hi = v[1] if hi is None else hi if v[1] is None else min(hi, v[1])
            if isinstance(f, T) and callm(f, "str::contains") and s.base(f.a[1][0]) and chars(f.a[1][1]) == {"-"}:
                if v: lo = max(lo, 2)
                else: hi = 1
        return lo, hi

    def has(s, a, b):
        """Whether the base has bytes a to b (known 1/0/None)."""
        for f, v in s.F.items():
            if isinstance(f, T) and f.op == "discr" and callm(f.a[0], "str::get"):
                r = s.range(mk("fld", f.a[0], SOME0))
                if r and s.whole(r[0]) and r[1:] == (a, b): return v
        return None

    def first_empty(s):
        for f, v in s.F.items():
            if isinstance(f, T) and f.op == "eq" and f.a[1] is cint(0) and f.a[0].op == "len" and s.piece(f.a[0].a[0]) == ("piece", 0): return v
            if isinstance(f, T) and callm(f, "str::starts_with") and s.base(f.a[1][0]) and chars(f.a[1][1]) == {"-"}: return v
        return None

    def plus(s):
        for f, v in s.F.items():
            if isinstance(f, T) and callm(f, "str::starts_with") and f.a[1][0] is s.text and chars(f.a[1][1]) == {"+"}: return v
            if isinstance(f, T) and f.op == "eq" and all(x.op == "len" and s.base(x.a[0]) for x in f.a) and s.text in (f.a[0].a[0], f.a[1].a[0]): return 1 - v
            if isinstance(f, T) and f.op == "discr" and callm(f.a[0], "str::strip_prefix") and f.a[0].a[1][0] is s.text: return v
        return None

    def empty(s):
        for f, v in s.F.items():
            if isinstance(f, T) and f.op == "eq" and f.a[1] is cint(0) and f.a[0].op == "len" and s.base(f.a[0].a[0]): return v
        return None

    def expected(s):
        """What year, month and day are to be read from on this path; a string says what is not known."""
        if s.empty() == 1: return [None, None, None]
        if s.empty() is None: return "whether there is any text"
        lo, hi = s.pieces()
        if hi == 1:
            if s.plus() == 1: return [("cut", 0, None), None, None]
            if s.plus() is None: return "whether there is a plus sign"
            out = []
            for a, b in ((0, 4), (4, 6), (6, 8)):
                h = s.has(a, b)
                if h is None:
                    if out and out[-1] is None:
                        out.append(None)
                        continue
                    return "whether there are bytes %d to %d" % (a, b)
                out.append(("cut", a, b) if h else None)
            return out
        if lo < 2: return "whether there is a dash"
        ne = s.first_empty()
        if ne is None: return "whether there is a minus sign"
        k = 1 if ne else 0
        out = [("neg", ("piece", 1)) if ne else ("piece", 0)]
        for j in (k + 1, k + 2):
            if lo > j: out.append(("piece", j))
            elif hi is not None and hi <= j: out.append(None)
            else: return "whether there are %d numbers" % (j - k + 1)
        return out


def chars(x):
    """Characters a pattern argument stands for."""
    if x.op == "c" and isinstance(x.a[1], int): return {chr(x.a[1])}
    if x.op == "c" and isinstance(x.a[1], str): return {x.a[1]}
    if x.op == "arr" and all(y.op == "c" for y in x.a[0]): return {chr(y.a[1]) if isinstance(y.a[1], int) else y.a[1] for y in x.a[0]}
    return None


def iso_date(ctx, cfg):
    r = run(ctx, cfg, ISO[0], models=dict(QUIET))
    if r is None: return
    fn, e, a, ps = r
    seen = set()
    for p in ps:
        if p.kind == "panic": continue
        key, where = cfg + ":date:", pt.last_line(fn, p.events)
        I = Iso(p, a[0])
        res, v = split_result(p)
        dates = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("Date::try_new_iso_date")]
        if dates:
            c = dates[-1]
            x = I.expected()
            if isinstance(x, str):
                ctx.ob(key + "form", False, where, "a date is made although it was not examined %s" % x)
                continue
            seen.add(tuple(y is not None for y in x) + (x[0],))
            for n, y, t, d in zip(("year", "month", "day"), x, c.args, (0, 1, 1)):
                if y is None: ctx.ob(key + n, t is cint(d), where, "a date without %s must get %d: %s" % (n, d, show(t)[:200]))
                else:
                    q = I.number(t)
                    got = I.piece(q) if q is not None else None
                    ctx.ob(key + n, got == y, where, "the %s must be read from %s, not %s" % (n, y, show(t)[:200]))
            good = res == "ok" and v is mk("fld", c.ret, OK0) or res == "err" and any(t is mk("fld", c.ret, ERR0) for t in subterms(v))
            ctx.ob(key + "result", good, where, "the result must be the date made, or its error: %s" % show(v)[:200])
        else:
            # a number that cannot be read
            errs = [t for t in subterms(v) if t.op == "fld" and t.a[1] == ERR0] if res == "err" else []
            good = len(errs) == 1 and callm(errs[0].a[0], "from_str", "str::parse") is not None and I.piece(errs[0].a[0].a[1][0]) is not None
            ctx.ob(key + "refused", good, where, "a date is refused only for a number that cannot be read: %s" % show(v)[:200])
    for form in ((None,), (("cut", 0, None),), (("cut", 0, 4),), (("piece", 0),), (("neg", ("piece", 1)),)):
        ctx.ob(cfg + ":date:accepts:%s" % (form[0],), any(x[3] == form[0] for x in seen), fn.where(), "texts of the form %s must be read" % (form,))


def iso_time(ctx, cfg):
    r = run(ctx, cfg, ISO[1], models=dict(QUIET))
    if r is None: return
    fn, e, a, ps = r
    text = a[0]
    UNITS = (("hour", "IsoHour", ":"), ("minute", "IsoMinute", ":"), ("second", "IsoSecond", "."), ("nanosecond", "NanoSecond", None))
    full = 0
    for p in ps:
        if p.kind == "panic": continue
        where = pt.last_line(fn, p.events)
        key = cfg + ":time:"
        F = p.facts
        I = Iso(p, text)
        res, v = split_result(p)

        def stripped(t):
            """(t is the text without T, zone offset and Z; the sorts of things removed)"""
            done = set()
            while t is not text:
                m = callm(t, "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")
                if m:
                    c = chars(m[1])
                    if not c or not c <= {"T", "Z"} or c == {"T"} and "end" in t.a[0] or c == {"Z"} and "start" in t.a[0]: return None
                    done |= c
                    t = m[0]
                    continue
                r = I.range(t)
                if r and r[1] == 0 and isinstance(r[2], T):
                    g = somepay(r[2])
                    f = callm(g, "str::find") if g is not None else None
                    c = chars(f[1]) if f else None
                    if not c or not c <= {"+", "-"} or f[0] is not r[0] or "Z" in done and False: return None
                    done |= c
                    t = r[0]
                    continue
                return None
            # an offset that is not there need not be removed
            for f, w in F.items():
                if isinstance(f, T) and f.op == "discr" and callm(f.a[0], "str::find") and w == 0: done |= chars(f.a[0].a[1][1]) or set()
                if isinstance(f, T) and callm(f, "str::contains") and w == 0: done |= chars(f.a[1][1]) or set()
            return done >= {"T", "Z", "+", "-"}

        def follows(whole, j, cur):
            """whole is the text that unit j is to be read from."""
            if j == 0: return bool(stripped(whole))
            m = callm(whole, "str::trim_start_matches")
            rest = m[0] if m and chars(m[1]) == {UNITS[j - 1][2]} else None
            if rest is None:
                g = somepay(whole)
                m = callm(g, "str::strip_prefix") if g is not None else None
                rest = m[0] if m and chars(m[1]) == {UNITS[j - 1][2]} else whole
            r = I.range(rest)
            return bool(r) and r[1:] == (2, None) and r[0] is cur

        times = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("Time::new")]
        reads = [ev for ev in p.events if ev.kind == "call" and ev.name.endswith("from_str") and any(u in ev.name for _, u, _ in UNITS)]
        cur, okk, why = None, True, ""
        for j, ev in enumerate(reads):
            n, u, sep = UNITS[min(j, 3)]
            if u not in ev.name or j > 3:
                okk, why = False, "%s is read as the %s number" % (ev.name, j + 1)
                break
            x = ev.args[0]
            if j < 3:
                r = I.range(x)
                if not r or r[1:] != (0, 2): okk, why = False, "%s must be the first two digits of what is left: %s" % (n, show(x)[:200]); break
                whole = r[0]
            else: whole = x
            if not follows(whole, j, cur): okk, why = False, "%s must be read from what follows the %s: %s" % (n, UNITS[j - 1][0] if j else "T, without Z and offset", show(x)[:200]); break
            cur = whole
        ctx.ob(key + "order", okk, where, "a time is read in the order hour, minute, second, nanosecond: %s" % why)
        if not okk: continue
        if times and res == "ok" or res == "ok" and v.op == "adt":
            # the four numbers of the result, given when it is made or set afterwards
            w, over = v, {}
            while w.op == "with":
                for l, x in w.a[1]: over.setdefault(l.split(".")[-1], x)
                w = w.a[0]
            got = next((list(ev.args) for ev in times if ev.ret is w), None)
            if got is None and w.op == "adt" and w.a[0].endswith("::Time") and len(w.a[2]) == 4: got = list(w.a[2])
            names = ["hour", "minute", "second", "nanosecond"]
            ctx.ob(key + "result", got is not None and set(over) <= set(names), where, "the result must be the time made: %s" % show(v)[:200])
            full = max(full, len(reads))
            for j, (t, (n, u, _)) in enumerate(zip([over.get(m, t) for m, t in zip(names, got or [v] * 4)], UNITS)):
                if j < len(reads): ctx.ob(key + n, t is mk("fld", reads[j].ret, OK0), where, "the %s must be the number read for it: %s" % (n, show(t)[:200]))
                else: ctx.ob(key + n, t.op == "call" and t.a[0].endswith(u + "::zero") or t.op == "default" and u in str(t.a[0]) or callm(t, "default") is not None and u in t.a[0], where, "a time without %s must get zero: %s" % (n, show(t)[:200]))
            # what is left out is not there
            if len(reads) < 4:
                n = len(reads)
                gone = any(isinstance(f, T) and f.op == "discr" and callm(f.a[0], "str::get") and w == 0 and n < 3 and I.range(mk("fld", f.a[0], SOME0))[1:] == (0, 2) and follows(f.a[0].a[1][0], n, cur) for f, w in F.items()) or \
                    any(isinstance(f, T) and f.op == "eq" and f.a[1] is cint(0) and f.a[0].op == "len" and w == 1 and follows(f.a[0].a[0], n, cur) for f, w in F.items())
                ctx.ob(key + "left-out", gone, where, "the %s may be left out only when there is no text for it" % UNITS[len(reads)][0])
        else:
            errs = [t for t in subterms(v) if t.op == "fld" and t.a[1] == ERR0] if res == "err" else []
            ctx.ob(key + "refused", bool(reads) and len(errs) == 1 and errs[0].a[0] is reads[-1].ret, where, "a time is refused only for a number that cannot be read: %s" % show(v)[:200])
    ctx.ob(cfg + ":time:accepts", full == 4, fn.where(), "a time with nanoseconds must be read")


def c37(ctx):
    """ISO 8601 dates and times are read as documented."""
    for cfg in ("default", "sync"):
        iso_date(ctx, cfg)
        iso_time(ctx, cfg)
