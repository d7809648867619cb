"""Patterns: the parser of pattern strings, explored as a finite automaton.

The loops of the parser that take tokens from the lexer are not closed by opaque values: at their heads the abstract state is reduced to what
can still matter (parser state, stack of states, the nodes from the root to the current node with the types of their children, lists longer than
three abstracted, tokens and counters forgotten) and every reduced state is explored once for every class of next token.  The result is the
transition system of the parser over token classes, for strings of every length."""
from common import *
import models
from absint import live_in, strict_live
from models import val, payload

ADT = "i18n_localiser::"
TREE, NODE, NT, PST = ADT + "Tree", ADT + "Node", ADT + "NodeType", ADT + "ParserStates"
TOKEN, TT = "i18n_lexer::Token", "i18n_lexer::TokenType"
GRAMMAR = "{}`#"
CLASSES = ("W", "I", "S", "{", "}", "`", "#")   # white space, identifier, syntax, and the four grammar characters
POS = ("o", mk("lexpos"))
OLD = mk("oldtoken")
CAP = {"String": 0, "NamedGroup": 0, "Command": 2, "Pattern": 2}   # children kept one by one; longer lists: the last child and a lower bound of the length


FIELDS = {NODE: ("node_type", "parent", "children", "tokens"), PST: ("current", "state", "nested_states"), TREE: ("tokens", "has_grammar", "lengths", "nodes")}


def fields(P, name):
    """Field names; private fields that were renamed are known by their place in the declaration."""
    fs = [f[0] for f in P.adts[name]["variants"][0][2]]
    known = FIELDS.get(name)
    if known and set(fs) != set(known) and len(fs) == len(known): fs = [f if f in known else known[i] if known[i] not in fs else f for i, f in enumerate(fs)]
    return fs


def variant(P, name, v): return P.adts[name]["variants"][v][0]


def vindex(P, name, v): return [x[0] for x in P.adts[name]["variants"]].index(v)


def token(e, k, cls):
    P = e.P
    ty = {"W": "WhiteSpace", "I": "Identifier", "S": "Syntax"}.get(cls, "Grammar")
    out = []
    for f in fields(P, TOKEN):
        if f == "string": out.append(cstr(cls) if ty == "Grammar" else mk("tokstr", cls, k))
        elif f == "token_type": out.append(mk("adt", TT, vindex(P, TT, ty), ()))
        else: out.append(mk("tokfld", f, k))
    return mk("adt", TOKEN, 0, tuple(out))


def loc(c, i, st=None):
    st = st or c.st
    a = c.args[i]
    root, path = a.a if a.op == "ref" else (("o", a), ())
    v = c.e.rd(st, root, path)
    n = 0
    while v.op == "ref" and n < 20:
        root, path = v.a
        v = c.e.rd(st, root, path)
        n += 1
    return root, path, v


# ---- the lexer

def is_lexer(c, i=0): return "LexerIterator" in c.e.P.tystr(c.types, c.t[5][i]) or lexsrc(val(c, c.args[i]))


def lexsrc(v):
    while v.op == "iter" and v.a[0] != "src": v = v.a[1]
    return v.op == "iter" and any(t.op == "call" and "LexerIterator" in t.a[0] for t in subterms(v.a[1]))


def shape(it, k, tok):
    if it.op != "iter" or it.a[0] == "src": return tok
    x = shape(it.a[1], k, tok)
    return mk("tup", (cint(k), x)) if it.a[0] == "enumerate" else x


def take(c, consume):
    it = val(c, c.args[0])
    if not lexsrc(it): return NotImplemented
    e = c.e
    k = c.st.store.get(POS, cint(0)).a[1]
    outs = []
    known = c.st.facts.get(("tok", k))
    for cls in ([known] if known else CLASSES + ("$",)):
        n = c.st.fork()
        n.facts[("tok", k)] = cls
        if cls == "$":
            outs.append((n, NONE))
            continue
        t = token(e, k, cls)
        for g in GRAMMAR:
            if cls in "WIS": n.facts[mk("eq", mk("tokstr", cls, k), cstr(g))] = 0
        if consume: n.store[POS] = cint(k + 1)
        outs.append((n, some(shape(it, k, t))))
    return c.fork_deliver(outs)


def m_next(c): return take(c, True)
def m_peek(c): return take(c, False)


def m_next_if(c):
    if not lexsrc(val(c, c.args[0])): return NotImplemented
    cr = ("o", mk("clocell", c.args[1], c.site))
    c.st.store[cr] = c.args[1]
    return c.e.do_inline(c, c.e.P.fns["synthetic::next_if"], [c.args[0], mk("ref", cr, ())])


# ---- vectors with known elements

MANYLEN = {}


def length(e, st, v):
    if v.op == "many":
        l = mk("len", v)
        st.facts.setdefault(("iv", l), (v.a[1], None))
        return l
    return e.length(st, v)


def m_push(c):
    root, path, v = loc(c, 0)
    x = c.fz(1)
    if v.op == "arr": n = mk("arr", v.a[0] + (x,))
    elif v.op == "many": n = mk("many", x, v.a[1])
    else: return NotImplemented
    c.event(c.st, "call", "alloc::Vec::push", (v, x), None)
    c.e.wr(c.st, root, path, n)
    return c.deliver(c.st, UNIT)


def m_extend(c):
    root, path, v = loc(c, 0)
    xs = c.fz(1)
    if v.op != "arr" or xs.op != "arr": return NotImplemented
    for x in xs.a[0]: c.event(c.st, "call", "alloc::Vec::push", (v, x), None)
    c.e.wr(c.st, root, path, mk("arr", v.a[0] + xs.a[0]))
    return c.deliver(c.st, UNIT)


def m_pop(c):
    root, path, v = loc(c, 0)
    if v.op != "arr": return NotImplemented
    if not v.a[0]: return c.deliver(c.st, NONE)
    c.e.wr(c.st, root, path, mk("arr", v.a[0][:-1]))
    return c.deliver(c.st, some(v.a[0][-1]))


def m_len(c):
    root, path, v = loc(c, 0)
    if v.op != "many": return NotImplemented
    l = length(c.e, c.st, v)
    if c.name.endswith("is_empty"): return c.deliver(c.st, FALSE)
    return c.deliver(c.st, l)


def at(c, v, root, path, i):
    """Reference to (or value of) element i, 'out' or None."""
    if v.op != "arr" or i.op != "c": return None
    n = i.a[1]
    if not 0 <= n < len(v.a[0]): return "out"
    return mk("ref", root, path + (("i", i),))


def m_get(c):
    root, path, v = loc(c, 0)
    op = c.name.split("::")[-1].replace("_mut", "")
    if v.op == "many" and op == "last": return c.deliver(c.st, some(v.a[0]))
    if v.op != "arr": return NotImplemented
    i = cint(0) if op == "first" else cint(len(v.a[0]) - 1) if op == "last" else c.fz(1)
    r = at(c, v, root, path, i)
    if r is None: return NotImplemented
    return c.deliver(c.st, NONE if r == "out" else some(r))


def m_index(c):
    root, path, v = loc(c, 0)
    i = c.fz(1)
    if v.op == "arr" and i.op == "c" and i.a[0] == "int":
        r = at(c, v, root, path, i)
        if r == "out":
            c.e.panic(c.st, c.fr, c.line, "bounds", (v, i))
            return False
        return c.deliver(c.st, r)
    return NotImplemented


MODELS = {"core::Iterator::next": m_next, "core::Peekable::peek": m_peek, "core::Peekable::next_if": m_next_if, "synthetic::peek": m_peek,
          "alloc::Vec::push": m_push, "core::Extend::extend": m_extend, "alloc::Vec::extend_from_slice": m_extend, "alloc::Vec::pop": m_pop, "alloc::Vec::len": m_len, "core::slice::len": m_len, "alloc::Vec::is_empty": m_len, "core::slice::is_empty": m_len,
          "log::max_level": lambda c: c.deliver(c.st, mk("adt", "log::LevelFilter", 0, ())),
          "core::Index::index": m_index, "core::IndexMut::index_mut": m_index}
for _n in ("first", "last", "get", "first_mut", "last_mut", "get_mut"): MODELS["core::slice::" + _n] = m_get


# ---- reduction of states

class Edge:
    def __init__(s, *a): s.src, s.toks, s.ahead, s.placed, s.created, s.open, s.closed, s.events, s.facts, s.dst = a


class Pin:
    def __init__(s, P):
        s.P = P
        s.loops = {}
        s.inners = {}
        s.reset()

    def reset(s):
        s.seen = {}
        s.states = []
        s.edges = []
        s.init = []
        s.deep = []

    def wants(s, e, fr, b):
        k = (fr.fn.key, b)
        if k not in s.loops:
            fn = fr.fn
            s.loops[k] = any(fn.blocks[x]["t"][0] == "call" and any("LexerIterator" in s.P.tystr(fn.types, y) for y in fn.blocks[x]["t"][5]) for x in fn.loops()[b])
        return s.loops[k]

    def inner(s, fn, b):
        """Locals that only hold values of one iteration: assigned nowhere outside the loop and not live at its head."""
        k = (fn.key, b)
        if k not in s.inners:
            live_in(fn)
            body = fn.loops()[b]
            out = set(range(fn.argc + 1))
            for i, blk in enumerate(fn.blocks):
                if i in body: continue
                out |= {m[1][0] for m in blk["s"] if m[0] == "="}
                if blk["t"][0] == "call": out.add(blk["t"][3][0])
            s.inners[k] = set(range(len(fn.locals))) - out - strict_live[fn.key][b]
        return s.inners[k]

    def head(s, e, st, fr, b):
        fn = fr.fn
        src = st.facts.get(("pin",))
        k = st.store.get(POS, cint(0)).a[1]
        ahead = st.facts.get(("tok", k))
        new = {}
        for root, v in st.store.items():
            if root[0] == "o": continue
            if root[0] == fr.id and (e.dead_at(fn, b, root[1]) or root[1] in s.inner(fn, b)): continue
            new[root] = v
        # all node lists in the state
        r = Reduce(s.P, e, new)
        red = {root: r.value(v) for root, v in new.items()}
        facts = {t: v for t, v in r.facts.items()}
        if ahead: facts[("tok", 0)] = ahead
        key = (fr.id, b, ahead, tuple(sorted(((str(a), v) for a, v in red.items()), key=lambda x: x[0])))
        if src is not None:
            n0 = s.states[src][3]
            s.edges.append(Edge(src, [st.facts.get(("tok", i)) for i in range(k)], ahead, [(a, t, p, i >= n0) for a, t, p, i in r.placed],
                                [(t, p) for t, p, i in r.created if i >= n0] if r.nodes is not None else None, r.open if r.nodes is not None else None, r.closed, st.evlist(), dict(st.facts), s.seen.get(key, len(s.states))))
        if src is None: s.init.append(s.seen.get(key, len(s.states)))
        else:
            s.edges[-1].tokens = r.tokens
            s.edges[-1].replaced = [t for v in new.values() for t in subterms(v) if t.op == "mapnew"]
        if key in s.seen: return False
        s.seen[key] = len(s.states)
        s.states.append((red, r.info, ahead, r.count if r.nodes is not None else 0))
        if len(s.states) > 400: raise Inconclusive("the parser has too many states")
        st.store = red
        st.store[POS] = cint(0)
        st.facts = facts
        st.facts[("pin",)] = s.seen[key]
        st.events = None
        return True


class Reduce:
    """Replaces the parts of the state that no longer matter."""
    def __init__(s, P, e, store):
        s.P, s.e = P, e
        s.facts = {}
        s.placed = []    # (token position, node type, type of the node's parent, new node?)
        s.closed = []    # (node type, child types or None, number of tokens) of nodes that can no longer change
        s.info = None
        s.map = None
        s.nodes = None
        F = fields(P, NODE)
        s.iT, s.iP, s.iC, s.iK = (F.index(x) for x in ("node_type", "parent", "children", "tokens"))
        s.refs = set()
        s.tokens = []
        arrs = []
        for root, v in store.items():
            for t in subterms(v):
                if t.op == "arr" and t.a[0] and all(x.op == "adt" and x.a[0] == NODE for x in t.a[0]): arrs.append(t)
                if t.op == "arr" and t.a[0] and all(x.op == "adt" and x.a[0] == TOKEN for x in t.a[0]): s.tokens.append(t.a[0])
                if t.op == "adt" and t.a[0] == PST: s.refs |= {x.a[1] for x in subterms(t.a[2][fields(P, PST).index("current")]) if x.op == "c"}
        arrs = list(dict.fromkeys(arrs))
        if len(arrs) == 1:
            s.nodes = arrs[0]
            s.plan()

    def ntype(s, n): return variant(s.P, NT, n.a[2][s.iT].a[1]) if n.a[2][s.iT].op == "adt" else "?"

    def kids(s, n):
        """(list of child indices, exact?) or None"""
        v = n.a[2][s.iC]
        if not is_some(v): return None
        v = pay(v)
        if v.op == "arr": return [x.a[1] if x.op == "c" else None for x in v.a[0]], True
        if v.op == "many": return [v.a[0].a[1] if v.a[0].op == "c" else None], False
        return [], False

    def plan(s):
        ns = s.nodes.a[0]
        keep = set()
        for i in s.refs:
            while i is not None and 0 <= i < len(ns) and i not in keep:
                keep.add(i)
                p = ns[i].a[2][s.iP]
                i = pay(p).a[1] if is_some(p) and pay(p).op == "c" else None
        s.keep = sorted(keep)
        stubs = set()
        s.childtypes = {}
        for i in range(len(ns)):
            kk = s.kids(ns[i])
            if kk is None: continue
            ks, exact = kk
            s.childtypes[i] = ([s.ntype(ns[j]) if j is not None and j < len(ns) else "?" for j in ks], exact)
            if i in keep:
                if len(ks) > CAP.get(s.ntype(ns[i]), 3): stubs |= {ks[-1]}
                else: stubs |= set(ks)
        stubs -= keep
        allk = sorted(keep | stubs)
        s.map = {o: n for n, o in enumerate(allk)}
        s.stubs = stubs
        # what became of the tokens of this step
        for i, n in enumerate(ns):
            tk = n.a[2][s.iK]
            if is_some(tk):
                v = pay(tk)
                xs = v.a[0] if v.op == "arr" else (v.a[0],) if v.op == "many" else ()
                for x in xs:
                    if x.op == "c": s.placed.append((x.a[1], s.ntype(n), s.ptype(ns, n), i))
            if i not in keep and not (n.a[2][s.iT].op == "adt" and s.isstub(n)):
                s.closed.append((s.ntype(n), s.childtypes.get(i), s.tokcount(n)))
        s.open = [(s.ntype(ns[i]), s.childtypes.get(i), s.tokcount(ns[i])) for i in s.keep]
        s.info = s.open
        s.created = [(s.ntype(n), s.ptype(ns, n), i) for i, n in enumerate(ns)]
        s.count = len(s.map)

    def ptype(s, ns, n):
        p = n.a[2][s.iP]
        return s.ntype(ns[pay(p).a[1]]) if is_some(p) and pay(p).op == "c" and pay(p).a[1] < len(ns) else None

    def tokcount(s, n):
        tk = n.a[2][s.iK]
        if not is_some(tk): return None
        v = pay(tk)
        return len(v.a[0]) if v.op == "arr" else 2 if v.op == "many" else None

    def isstub(s, n):
        tk, ch = n.a[2][s.iK], n.a[2][s.iC]
        return any(is_some(x) and pay(x).op == "stub" for x in (tk, ch))

    def node(s, i, n):
        a = list(n.a[2])
        if is_some(a[s.iP]): a[s.iP] = some(cint(s.map[pay(a[s.iP]).a[1]]))
        if i in s.stubs:
            if is_some(a[s.iC]): a[s.iC] = some(mk("stub", s.ntype(n)))
            if is_some(a[s.iK]): a[s.iK] = some(mk("stub", s.ntype(n)))
        else:
            if is_some(a[s.iC]):
                v = pay(a[s.iC])
                cap = CAP.get(s.ntype(n), 3)
                if v.op == "arr" and len(v.a[0]) <= cap: v = mk("arr", tuple(cint(s.map[x.a[1]]) for x in v.a[0]))
                else:
                    l = v.a[0][-1] if v.op == "arr" else v.a[0]
                    v = mk("many", cint(s.map[l.a[1]]), cap + 1)
                    s.facts[("iv", mk("len", v))] = (cap + 1, None)
                a[s.iC] = some(v)
            if is_some(a[s.iK]):
                v = pay(a[s.iK])
                if v.op == "arr" and len(v.a[0]) <= 1: v = mk("arr", (OLD,) * len(v.a[0]))
                else:
                    v = mk("many", OLD, 2)
                    s.facts[("iv", mk("len", v))] = (2, None)
                a[s.iK] = some(v)
        return mk("adt", NODE, 0, tuple(a))

    def value(s, v):
        if v is s.nodes: return mk("arr", tuple(s.node(i, s.nodes.a[0][i]) for i in sorted(s.map)))
        op = v.op
        if op == "arr" and v.a[0] and all(x.op == "adt" and x.a[0] == TOKEN for x in v.a[0]): return mk("arr", ())
        if op == "adt" and v.a[0] == ADT + "Length": return mk("adt", v.a[0], v.a[1], tuple(mk("cnt", i) for i in range(len(v.a[2]))))
        if op == "adt" and v.a[0] == PST:
            f = fields(s.P, PST).index("current")
            return mk("adt", PST, 0, tuple(s.index(x) if i == f else s.value(x) for i, x in enumerate(v.a[2])))
        if op == "adt": return mk("adt", v.a[0], v.a[1], tuple(s.value(x) for x in v.a[2]))
        if op in ("tup", "arr"): return mk(op, tuple(s.value(x) for x in v.a[0]))
        if op == "mapnew" or (op == "upd" and base(v).op == "mapnew"): return mk("knownkeys", base(v).a[0])
        if op == "upd" and base(v).op == "knownkeys": return base(v)
        return v

    def index(s, v):
        if v.op == "c": return cint(s.map[v.a[1]]) if s.map and v.a[1] in s.map else v
        if v.op == "adt": return mk("adt", v.a[0], v.a[1], tuple(s.index(x) for x in v.a[2]))
        return v


def automaton(ctx, cfg):
    P = ctx.program(cfg)
    fn = P.find(TREE + "::try_new")
    e = Engine(P, sync=(cfg == "sync"), models=MODELS, opaque=("i18n_lexer::LexerIterator::try_new",))
    e.pin = Pin(P)
    ps = e.run(fn, e.args_for(fn))
    return fn, e, ps


# ---- the grammar, as an automaton over token classes

MAIN = ("Root", "String")
SUB = ("Root", "NamedGroup", "NamedString", "String")
TEXT = ("Text", "String")
SKIP = None


class Ref:
    """Reference automaton.  A state is a tuple (name, context...); step gives (state, place of the token, nodes created) or None when the token is refused."""
    start = ("Main",)

    def ctx(s, c): return ("Main",) if c == "main" else ("Sub",)

    def step(s, st, t):
        n = st[0]
        c = st[1] if len(st) > 1 else "main" if n == "Main" else "sub"
        W = t in "WIS"
        if n in ("Main", "Sub", "SubNum"):
            if W: return s.ctx(c), TEXT, []
            if t == "`": return ("Esc", c), SKIP, []
            if t == "{": return ("Open", c), SKIP, []
            if n == "Main": return (("Group",), SKIP, [("NamedGroup", "Root")]) if t == "#" else None
            if t == "#": return (("SubNum",), ("NumberSign", "String"), [("NumberSign", "String")]) if n == "Sub" else None
            return ("Group",), SKIP, []
        if n == "Esc": return s.ctx(c), TEXT, []
        if n == "Open":
            if t == "I": return ("Pat", c), ("Identifier", "Pattern"), [("Pattern", "String"), ("Identifier", "Pattern")]
            if t == "`": return ("Lit", c), SKIP, []
            if t == "#": return ("Cmd0", c), SKIP, [("Command", "String")]
            return None
        if n in ("Pat", "Key"):
            if t == "W": return st, SKIP, []
            if t == "}": return s.ctx(c), SKIP, []
            if t == "I" and n == "Pat": return ("Key", c), ("Identifier", "Pattern"), [("Identifier", "Pattern")]
            if t == "I": return ("Sel1", c), ("Identifier", "Selector"), [("Selector", "Pattern"), ("Identifier", "Selector")]
            return None
        if n == "Sel1": return (("Sel2", c), SKIP, []) if t == "#" else None
        if n == "Sel2": return (("Key", c), ("Identifier", "Selector"), [("Identifier", "Selector")]) if t == "I" else None
        if n == "Lit": return (("LitBT", c), SKIP, []) if t == "`" else (st, TEXT, [])
        if n == "LitBT":
            if t == "`": return ("Lit", c), TEXT, []
            return (s.ctx(c), SKIP, []) if t == "}" else None
        if n == "CLit": return (("CLitBT",) + st[1:], SKIP, []) if t == "`" else (st, ("Text", "Command"), [])
        if n == "CLitBT" and t == "`": return ("CLit",) + st[1:], ("Text", "Command"), []
        if n == "CLitBT": return s.step((st[2], c), t)
        if n in ("Cmd0", "Cmd1", "CmdN"):
            after = "Cmd1" if n == "Cmd0" else "CmdN"
            if t == "W": return st, SKIP, []
            if t == "I": return (after, c), ("Identifier", "Command"), [("Identifier", "Command")]
            if t == "`": return ("CLit", c, after), SKIP, [("Text", "Command")]
            if t == "#" and n == "Cmd1": return ("CmdN", c), ("NumberSign", "Command"), [("NumberSign", "Command")]
            if t == "}" and n != "Cmd0": return s.ctx(c), SKIP, []
            return None
        if n == "Group":
            if t == "W": return st, SKIP, []
            return (("NS0",), SKIP, [("NamedString", "NamedGroup")]) if t == "{" else None
        if n == "NS0": return (("NS1",), ("Identifier", "NamedString"), [("Identifier", "NamedString")]) if t == "I" else None
        if n == "NS1": return (("NS2",), SKIP, []) if t == "W" else None
        if n == "NS2":
            S = [("String", "NamedString")]
            if t == "W": return st, SKIP, []
            if t in "IS": return ("Sub",), TEXT, S
            if t == "#": return ("SubNum",), ("NumberSign", "String"), S + [("NumberSign", "String")]
            if t == "{": return ("Open", "sub"), SKIP, S
            if t == "`": return ("Esc", "sub"), SKIP, S
            return None
        raise Exception(n)

    def accept(s, st): return st[0] in ("Main", "Group")

    def unique(s, st, t):
        return "placeholder" if st[0] == "Open" and t == "I" else "named string" if st[0] == "NS0" and t == "I" else None

    def spines(s, st):
        n = st[0]
        c = st[1] if len(st) > 1 else "main" if n == "Main" else "sub"
        b = MAIN if c == "main" else SUB
        if n in ("Main", "Sub", "SubNum", "Esc", "Open"): out, leaf = [b] + ([SUB[:3]] if n in ("Esc", "Open") and c == "sub" else []), ("Text", "NumberSign", "Identifier")
        elif n in ("Pat", "Key"): out, leaf = [b + ("Pattern",)], ("Identifier",)
        elif n in ("Sel1", "Sel2"): out, leaf = [b + ("Pattern", "Selector")], ("Identifier",)
        elif n == "Lit": out, leaf = [b + ("Text",)], ()
        elif n == "LitBT": out, leaf = [b], ("Text",)
        elif n == "CLit": out, leaf = [b + ("Command", "Text")], ()
        elif n in ("Cmd0", "Cmd1", "CmdN", "CLitBT"): out, leaf = [b + ("Command",)], ("Identifier", "Text", "NumberSign")
        elif n == "Group": out, leaf = [("Root", "NamedGroup")], ()
        else: out, leaf = [SUB[:3]], ("Identifier",)
        return out + [x + (l,) for x in out for l in leaf]


R = Ref()
KIDS = {"Root": [{"String"}, {"NamedGroup"}, set()], "NamedGroup": [{"NamedString"}], "NamedString": [{"Identifier"}, {"String"}, set()],
        "String": [{"Text", "NumberSign", "Command", "Pattern"}], "Command": [{"Identifier", "Text"}, {"Identifier", "Text", "NumberSign"}, {"Identifier", "Text"}],
        "Pattern": [{"Identifier"}, {"Identifier"}, {"Selector"}], "Selector": [{"Identifier"}, {"Identifier"}, set()]}
LEAST = {"NamedString": 2, "Command": 1, "Pattern": 1, "Selector": 2}


def shape_ok(ty, kids, toks, closed):
    if ty in KIDS:
        if toks is not None: return "%s holds tokens" % ty
        if kids is None: return "%s has no list of children" % ty
        ts, exact = kids
        spec = KIDS[ty]
        for i, t in enumerate(ts):
            s = spec[min(i, len(spec) - 1)] if exact else spec[-1] or spec[-2]
            if t not in s: return "child %d of a %s node is a %s node" % (i + 1, ty, t)
        if closed and exact and len(ts) < LEAST.get(ty, 0): return "a %s node is complete with %d children" % (ty, len(ts))
    else:
        if kids is not None: return "%s has children" % ty
        if ty in ("Identifier", "NumberSign") and closed and toks != 1: return "a %s node holds %s tokens" % (ty, toks)
    return None


def last_line(fn, events):
    for e in reversed(events):
        try: return e.where()
        except Exception: pass
    return fn.where()


class Product:
    """Implementation and reference side by side."""
    def __init__(s, ctx, cfg):
        s.ctx, s.cfg = ctx, cfg
        s.fn = None
        try: s.fn, s.e, s.paths = automaton(ctx, cfg)
        except Inconclusive as x:
            ctx.ob("analysis:%s" % cfg, False, "crates/localiser/src/tree.rs", "the transitions of the parser could not be extracted: %s" % x)
            return
        ctx.used(s.e, s.paths)
        pin = s.e.pin
        s.out, s.rets = {}, {}
        for d in pin.edges: s.out.setdefault(d.src, []).append(d)
        for p in s.paths:
            if p.kind == "ret": s.rets.setdefault(p.facts.get(("pin",)), []).append(p)
        s.pairs = {}
        s.steps = []    # (edge, reference state before, [(class, before, after, place, created) or (class, before, None)], after, grammar seen before/after)
        s.ends = []     # (path, reference state before, same list, grammar seen)
        todo = [(i, R.start, False) for i in dict.fromkeys(pin.init)]
        for x in todo: s.pairs[x] = ()
        while todo:
            x = todo.pop()
            i, st, g = x
            for d in s.out.get(i, []):
                run = s.run(st, d.toks)
                g2 = g or any(t in GRAMMAR for t in d.toks)
                s.steps.append((d, st, run, g2, s.pairs[x]))
                if run and run[-1][2] is None: continue
                y = (d.dst, run[-1][2] if run else st, g2)
                if y not in s.pairs:
                    s.pairs[y] = s.pairs[x] + tuple(d.toks)
                    todo.append(y)
            for p in s.rets.get(i, []):
                k = p.store.get(POS, cint(0)).a[1]
                toks = []
                j = 0
                while ("tok", j) in p.facts and p.facts[("tok", j)] != "$":
                    toks.append(p.facts[("tok", j)])
                    j += 1
                toks = toks[:k] if p.facts.get(("tok", k)) == "$" else toks
                s.ends.append((p, st, s.run(st, toks), p.facts.get(("tok", k)) == "$", g or any(t in GRAMMAR for t in toks), s.pairs[x]))
        ctx.note("states:" + cfg, len(pin.states)) if hasattr(ctx, "note") else None

    def run(s, st, toks):
        out = []
        for t in toks:
            r = R.step(st, t)
            if r is None:
                out.append((t, st, None, None, None))
                break
            out.append((t, st) + r)
            st = r[0]
        return out


PRODUCTS = {}


def product(ctx, cfg):
    s = Product(ctx, cfg)
    return s if s.fn is not None else None


def seq(pre, run): return " ".join(pre + tuple(x[0] for x in run)) or "(start)"


def refused(run): return bool(run) and run[-1][2] is None


def site(fn, p):
    """Where a panic is reached: in the repository when the panicking function is of a library."""
    w = p.info[2].where(p.info[3])
    return w if w.startswith("crates/") else "%s (reached after %s)" % (w, last_line(fn, p.events))


def c26(ctx):
    for cfg in ("default", "full", "sync"):
        a = product(ctx, cfg)
        if not a: continue
        for p in a.paths:
            if p.kind == "panic": ctx.ob("panic:%s:%s" % (cfg, p.info[0]), False, site(a.fn, p), "parsing a pattern string can panic: %s %s" % (p.info[0], [show(x)[:60] for x in p.info[1]]))
            elif p.kind == "ret": ctx.ob("returns:%s" % cfg, True, a.fn.where(), "")
        for d in a.e.pin.edges: ctx.ob("step:%s" % cfg, True, a.fn.where(), "")


def errkind(P, v):
    k, x = ("err", pay(v)) if is_err(v) else ("ok", pay(v)) if is_ok(v) else ("?", v)
    return k, variant_name(P, x) if k == "err" else None, x


def c27(ctx):
    for cfg in ("default", "full", "sync"):
        a = product(ctx, cfg)
        if not a: continue
        P = a.e.P
        ctx.ob("start:" + cfg, len(set(a.e.pin.init)) == 1, a.fn.where(), "the parser must start in one state")
        for d, st, run, g, pre in a.steps:
            ctx.ob("accept:%s:%s" % (cfg, st[0]), not refused(run), last_line(a.fn, d.events), "the parser goes on after the token sequence %s, of which the grammar does not admit the last token" % seq(pre, run))
        for p, st, run, end, g, pre in a.ends:
            k, name, x = errkind(P, p.value)
            fin = run[-1][2] if run else st
            w = last_line(a.fn, p.events)
            ctx.ob("result:" + cfg, k != "?", w, "undecided result")
            if k == "ok":
                ctx.ob("ok:%s:%s" % (cfg, st[0]), end and not refused(run) and R.accept(fin), w, "the parser accepts the token sequence %s%s, which the grammar does not" % (seq(pre, run), "" if end else " without reading it to its end"))
                hg = x.a[2][fields(P, TREE).index("has_grammar")]
                ctx.ob("grammar:%s" % cfg, hg is (TRUE if g else FALSE), w, "whether %s contains grammar is reported as %s" % (seq(pre, run), show(hg)))
            elif k == "err":
                uniq = run and R.unique(run[-1][1], run[-1][0]) and name and name.startswith("Unique")
                ctx.ob("err:%s:%s" % (cfg, st[0]), refused(run) or (end and not R.accept(fin)) or bool(uniq), w, "the parser refuses %s%s, which the grammar admits (%s)" % (seq(pre, run), " at its end" if end else "", name))
        for p in a.rets.get(None, []):
            k, name, x = errkind(P, p.value)
            ctx.ob("lexer:" + cfg, k == "err" and any(t.op == "call" and "LexerIterator" in t.a[0] for t in subterms(x)), a.fn.where(), "the parser ends before reading tokens other than for a failure of the lexer: %s" % show(p.value)[:100])
        cover(ctx, cfg, a)
        lexer_source(ctx, cfg, a)


def cover(ctx, cfg, a):
    """Every reference state is reached, and every class of token was tried in each."""
    seen = {}
    for d, st, run, g, pre in a.steps:
        for x in run: seen.setdefault(x[1], set()).add(x[0])
    for p, st, run, end, g, pre in a.ends:
        for x in run: seen.setdefault(x[1], set()).add(x[0])
        if end: seen.setdefault(run[-1][2] if run else st, set()).add("$")
    todo, all_ = [R.start], {R.start}
    while todo:
        st = todo.pop()
        for c in CLASSES:
            r = R.step(st, c)
            if r and r[0] not in all_:
                all_.add(r[0])
                todo.append(r[0])
    for st in sorted(all_):
        miss = [c for c in CLASSES + ("$",) if c not in seen.get(st, ())]
        ctx.ob("covered:%s:%s" % (cfg, "-".join(st)), not miss, a.fn.where(), "the parser never decides %s in the grammar state %s" % (" ".join(miss), "-".join(st)))


def lexer_source(ctx, cfg, a):
    """The tokens come from the lexer run on the whole given string, in order, none left out."""
    its = set()
    for p in a.paths:
        for ev in p.events:
            if ev.kind in ("call", "next") and "LexerIterator::try_new" in ev.name: its.add(ev.args)
    for red, *_ in a.e.pin.states:
        for v in red.values():
            if lexsrc(v):
                x, ok = v, True
                while x.a[0] != "src":
                    ok = ok and x.a[0] in ("enumerate", "peekable", "by_ref", "fuse")
                    x = x.a[1]
                c = [t for t in subterms(x.a[1]) if t.op == "call" and "LexerIterator" in t.a[0]]
                args = c[0].a[1] if c and isinstance(c[0].a[1], tuple) else c[0].a[1:] if c else ()
                ctx.ob("source:" + cfg, ok and bool(c), a.fn.where(), "the tokens do not come unchanged from the lexer: %s" % show(v)[:120])


def c28(ctx):
    for cfg in ("default", "full", "sync"):
        a = product(ctx, cfg)
        if not a: continue
        P = a.e.P
        for d, st, run, g, pre in a.steps:
            if refused(run): continue
            w = last_line(a.fn, d.events)
            if d.created is None:
                ctx.ob("nodes:" + cfg, False, w, "the nodes of the tree could not be identified")
                continue
            where = {}
            for pos, ty, par, new in d.placed: where.setdefault(pos, []).append((ty, par))
            for i, (t, bef, aft, place, cr) in enumerate(run):
                got = where.get(i, [])
                ctx.ob("place:%s:%s" % (cfg, bef[0]), got == ([place] if place else []), w, "after %s, the last token belongs to %s but is put into %s" % (seq(pre, run[:i + 1]), "a %s of a %s" % place if place else "no node", ", ".join("a %s of a %s" % x for x in got) or "no node"))
            exp = sorted(x for r in run for x in r[4] if x != TEXT)
            got = sorted(x for x in d.created if x != TEXT)
            ctx.ob("create:%s:%s" % (cfg, st[0]), exp == got, w, "after %s the nodes made must be %s, not %s" % (seq(pre, run), exp, got))
            fin = run[-1][2] if run else st
            spine = tuple(x[0] for x in d.open)
            ctx.ob("spine:%s:%s" % (cfg, fin[0]), spine in R.spines(fin), w, "after %s the parser stands at %s" % (seq(pre, run), "/".join(spine)))
            for ty, kids, toks in d.open:
                m = shape_ok(ty, kids, toks, False)
                ctx.ob("shape:%s:%s" % (cfg, ty), m is None, w, "after %s: %s" % (seq(pre, run), m))
            for ty, kids, toks in d.closed:
                m = shape_ok(ty, kids, toks, True)
                ctx.ob("closed:%s:%s" % (cfg, ty), m is None, w, "after %s: %s" % (seq(pre, run), m))
            tl = [tuple(y for y in x if any(z.op == "tokfld" for z in y.a[2])) for x in d.tokens]
            exp = tuple(token(a.e, i, t) for i, t in enumerate(d.toks))
            ctx.ob("tokens:" + cfg, (not exp and not tl) or tl == [exp], w, "after %s the list of tokens does not grow by the tokens read" % seq(pre, run))
        for p, st, run, end, g, pre in a.ends:
            k, name, x = errkind(P, p.value)
            if k != "ok": continue
            red = a.e.pin.states[p.facts[("pin",)]][0]
            have = {t for v in red.values() for t in subterms(v)}
            F = fields(P, TREE)
            n, t = x.a[2][F.index("nodes")], x.a[2][F.index("tokens")]
            ctx.ob("final:" + cfg, n in have and not run, last_line(a.fn, p.events), "the tree returned is not the one that was built")
            ctx.ob("finaltokens:" + cfg, t.op == "arr" and not t.a[0], last_line(a.fn, p.events), "the tokens returned are not the ones read")


def lookups(facts, key):
    """{map base: present?} of the look-ups of a key."""
    out = {}
    for f, v in facts.items():
        if isinstance(f, T) and f.op == "discr" and f.a[0].op == "call" and f.a[0].a[0] == "map.get" and f.a[0].a[1][1] is key: out[mapbase(f.a[0].a[1][0])] = v
    return out


def forgets(events):
    """Calls that take names out of a collection, with the collection."""
    return [(e, norm_map(mapbase(e.args[0]))) for e in events if e.kind in ("call", "mut") and e.args and e.name.split("::")[-1] in ("clear", "remove", "remove_entry", "retain", "drain", "take", "extract_if", "pop_first", "pop_last") and any(x in e.name for x in ("HashMap", "HashSet", "BTree"))]


def norm_map(m): return m.a[0] if m.op in ("mapnew", "knownkeys") else m


def inserts(events, key):
    return {norm_map(mapbase(e.args[0])) for e in events if e.kind == "call" and e.name.split("::")[-1] == "insert" and len(e.args) > 1 and e.args[1] is key}


def c29(ctx):
    for cfg in ("default", "full", "sync"):
        a = product(ctx, cfg)
        if not a: continue
        P = a.e.P
        used = {"placeholder": set(), "named string": set()}
        anyins = {}
        for d, st, run, g, pre in a.steps:
            if refused(run): continue
            w = last_line(a.fn, d.events)
            for i, (t, bef, aft, place, cr) in enumerate(run):
                u = R.unique(bef, t)
                key = mk("tokstr", t, i) if t in "WIS" else None
                ins = inserts(d.events, key) if key else set()
                if not u:
                    ctx.ob("other:" + cfg, not ins, w, "a token that is no name is recorded as one after %s" % seq(pre, run[:i + 1]))
                    continue
                lk = {norm_map(m): v for m, v in lookups(d.facts, key).items()}
                new = {m for m, v in lk.items() if v == 0}
                ctx.ob("new:%s:%s" % (cfg, u), bool(new & ins), w, "the %s read after %s is kept without having been found new and recorded" % (u, seq(pre, run[:i])))
                used[u] |= new & ins
        ctx.ob("separate:" + cfg, not (used["placeholder"] & used["named string"]), a.fn.where(), "placeholders and named strings are recorded together")
        for u, s in used.items(): ctx.ob("one:%s:%s" % (cfg, u), len(s) == 1, a.fn.where(), "the names of each %s must be recorded in one collection" % u)
        for d in a.e.pin.edges:
            for ev, m in forgets(d.events): ctx.ob("kept:" + cfg, False, ev.where(), "a recorded name is forgotten")
            ctx.ob("kept:" + cfg, not d.replaced, last_line(a.fn, d.events), "the collection of names is replaced while parsing")
        for p, st, run, end, g, pre in a.ends:
            k, name, x = errkind(P, p.value)
            if k != "err": continue
            w = last_line(a.fn, p.events)
            if end and not refused(run):
                ctx.ob("abrupt:" + cfg, name == "EndedAbruptly", w, "the premature end of %s is reported as %s" % (seq(pre, run), name))
                continue
            i = len(run) - 1
            t, bef = run[i][:2]
            u = R.unique(bef, t)
            if not refused(run) and u:
                key = mk("tokstr", t, i)
                lk = {norm_map(m): v for m, v in lookups(p.facts, key).items()}
                ctx.ob("dup:%s:%s" % (cfg, u), any(v == 1 and m in used[u] for m, v in lk.items()) and name == ("UniquePattern" if u == "placeholder" else "UniqueNamed") and x.a[2] == (key,), w, "a %s is refused as duplicate without being recorded, or is reported as %s" % (u, show(x)[:100]))
                continue
            tok = token(a.e, i, t)
            F = fields(P, TOKEN)
            sg, sx = tok.a[2][F.index("start_grapheme")], tok.a[2][F.index("string")]
            want = name == "MultiNumberSign" if bef[0] == "SubNum" and t == "#" else name == "InvalidToken"
            ctx.ob("refusal:%s:%s" % (cfg, bef[0]), want and (x.a[2][-2:] == (sg, sx) if name == "InvalidToken" else x.a[2] == (sg,)), w, "the refusal of the last token of %s is reported as %s" % (seq(pre, run), show(x)[:120]))
