"""Path-sensitive abstract interpretation of the dumped MIR.

Values are hash-consed terms (constants, constructors, references to abstract
locations, and uninterpreted terms recording provenance).  Every function is
analysed for all inputs: arguments are opaque terms, branches on opaque terms
are split (trace partitioning) and recorded as facts, workspace callees are
analysed in context, loops are closed by a fixpoint over the set of locations
they may change (those are replaced by opaque terms and the body is analysed
for an arbitrary iteration).  No solver is used and nothing is executed.
"""
import re, sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "_s")

    def __repr__(s):
        return show(s)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._s = None
        _tab[k] = t
    return t


def cint(n): return mk("c", "int", n)
def cstr(s): return mk("c", "str", s)


UNIT = mk("tup", ())
UNINIT = mk("uninit")
TRUE = cint(1)
FALSE = cint(0)


def is_c(t): return t.op == "c"


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12: return "…"
    o, a = t.op, t.a
    if o == "c": return repr(a[1])
    if o == "adt":
        nm = a[0].split("::")[-1]
        return "%s#%d(%s)" % (nm, a[1], ", ".join(show(x, d + 1) for x in a[2]))
    if o == "tup": return "(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    if o == "arr": return "[" + ", ".join(show(x, d + 1) for x in a[0]) + "]"
    if o == "arg": return str(a[0])
    if o == "fld": return "%s.%s" % (show(a[0], d + 1), a[1].split(".", 1)[1] if not a[1].split(".")[0].count("@") else a[1].split("@", 1)[1])
    if o == "call": return "%s(%s)%s" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1]), "" if a[2] is None else "!")
    if o == "ref": return "&<%s%s>" % (a[0], a[1] or "")
    if o == "upd": return "%s'" % show(a[0], d + 1)
    if o == "hv": return "hv{%s}" % (a[1],)
    if o == "lin": return "(" + "+".join(["%s" % a[0]] + ["%d*%s" % (c, show(x, d + 1)) for x, c in a[1]]) + ")"
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def short(n):
    m = re.match(r"<(.*) as (.*)>::(\w+)$", n)
    if m:
        return "%s.%s" % (m.group(1).split("::")[-1], m.group(3))
    return "::".join(n.split("::")[-2:])


def base(t):
    """Strip versions: identity of a mutated object."""
    while t.op in ("upd",):
        t = t.a[0]
    return t


def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains(t, sub):
    return sub in subterms(t)


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "fn", "line", "ctx", "extra", "loops")

    def __init__(s, kind, name, args, ret, fn, line, ctx, extra=None, loops=()):
        s.kind = kind; s.name = name; s.args = args; s.ret = ret; s.fn = fn; s.line = line; s.ctx = ctx
        s.extra = extra; s.loops = loops

    def where(s):
        return s.fn.where(s.line)

    def __repr__(s):
        return "%s %s(%s)%s @%s" % (s.kind, short(s.name), ", ".join(show(x) for x in s.args),
                                    " => " + show(s.ret) if s.ret is not None else "", s.line)


class Inconclusive(Exception):
    pass


class Restart(Exception):
    pass


class Frame:
    __slots__ = ("fn", "id", "bb", "visited", "dest", "target", "snap", "retmap", "chain", "unroll", "tag")

    def copy(s):
        f = Frame()
        f.fn = s.fn; f.id = s.id; f.bb = s.bb; f.visited = dict(s.visited); f.dest = s.dest; f.target = s.target
        f.retmap = s.retmap; f.chain = s.chain; f.unroll = s.unroll; f.tag = s.tag
        return f


    def setunroll(s, u):
        """The rounds of the loops over listed values this frame is in; they are part of the identity of what happens in them."""
        s.unroll = u
        s.tag = s.id + "".join("#%d.%d" % x for x in sorted(u.items()))

    def lid(s, h):
        if not s.unroll: return (s.id, h)
        loops = s.fn.loops()
        return (s.id + "".join("#%d.%d" % x for x in sorted(s.unroll.items()) if h in loops[x[0]]), h)


UNROLL = 6     # elements of a list that a loop is followed through one by one
LONG = 400     # the same when the loop does not branch
TAKE_ONE = ("alloc::Vec::pop", "core::slice::first", "core::slice::last", "alloc::VecDeque::pop_front", "alloc::VecDeque::pop_back")


class State:
    __slots__ = ("store", "facts", "events", "frames", "dead")

    def fork(s):
        n = State()
        n.store = dict(s.store)
        n.facts = dict(s.facts)
        n.events = s.events  # persistent cons list
        n.frames = [f.copy() for f in s.frames]
        n.dead = False
        return n

    def evlist(s):
        r = []
        e = s.events
        while e is not None:
            r.append(e[0])
            e = e[1]
        r.reverse()
        return r


class Path:
    __slots__ = ("facts", "events", "kind", "value", "info", "store")

    def __repr__(s):
        return "<%s %s>" % (s.kind, show(s.value) if s.value is not None else s.info)


NEG = {"Ne": "Eq", "Ge": "Lt", "Le": "Gt"}


def lin_parts(t):
    if t.op == "c" and t.a[0] == "int": return t.a[1], {}
    if t.op == "lin": return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, parts):
    parts = {k: v for k, v in parts.items() if v}
    if not parts: return cint(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1: return k
    return mk("lin", c, tuple(sorted(parts.items(), key=lambda kv: id(kv[0]))))


def add(a, b, s=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    p = dict(pa)
    for k, v in pb.items(): p[k] = p.get(k, 0) + s * v
    return mklin(ca + s * cb, p)


def split_pieces(x):
    """Arguments of the split whose pieces the length x counts."""
    if x.op == "len" and x.a[0].op == "collect" and x.a[0].a[0].op == "iter" and x.a[0].a[0].a[0] == "src" and x.a[0].a[0].a[1].op == "call" and x.a[0].a[0].a[1].a[0] in SPLITS: return x.a[0].a[0].a[1].a[1]
    return None


SPLITS = {"core::str::split", "core::str::rsplit", "core::str::split_inclusive_"}
GUARD = re.compile(r"(core::Ref|core::RefMut|MutexGuard|RwLockReadGuard|RwLockWriteGuard|std::MutexGuard)\b")


class Engine:
    def __init__(s, prog, opaque=(), max_paths=20000, max_steps=3000000, sync=False, max_depth=14, recurse=0,
                 panics=True, assume=None, models=None, keep_loopback=True, underflow=True):
        s.underflow = underflow
        s.P = prog
        s.opaque = set(opaque)
        s.max_paths = max_paths
        s.max_steps = max_steps
        s.sync = sync
        s.max_depth = max_depth
        s.recurse = recurse
        s.havoc = {}
        s.unrolling = True
        s.analysed = set()
        s.panics = panics
        s.assume = assume
        s.extra_models = models or {}
        s.constcache = {}
        s.keep_loopback = keep_loopback
        s.unmodelled = {}
        s.calls_seen = 0
        s.pin = None   # see rules/parser.py: loops explored state by state instead of being closed by opaque values

    # ---- locations -------------------------------------------------------
    def rd(s, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == "o" else UNINIT
        for e in path:
            v = s.proj(st, v, e)
        return v

    def proj(s, st, v, e):
        """e = ('f', idx, variant, label) | ('i', term) | ('ci', off, from_end) | ('ss',...)"""
        k = e[0]
        while v.op == "ref":
            v = s.rd(st, v.a[0], v.a[1])
        if k == "f":
            if v.op == "adt":
                if e[2] is not None and v.a[1] != e[2]: return mk("bot")
                if e[1] < len(v.a[2]): return v.a[2][e[1]]
                return mk("fld", v, e[3])
            if v.op == "tup": return v.a[0][e[1]] if e[1] < len(v.a[0]) else mk("fld", v, e[3])
            if v.op == "clo": return v.a[1][e[1]]
            if v.op == "with":
                for lab, x in v.a[1]:
                    if lab == e[3]: return x
                return s.proj(st, v.a[0], e)
            if v.op == "hvadt":
                pass
            return mk("fld", v, e[3])
        if k == "i":
            i = e[1]
            if v.op == "arr" and i.op == "c" and 0 <= i.a[1] < len(v.a[0]): return v.a[0][i.a[1]]
            return mk("idx", v, i)
        if k == "ci":
            if v.op == "arr":
                n = len(v.a[0])
                i = n - e[1] if e[2] else e[1]
                if 0 <= i < n: return v.a[0][i]
            return mk("idx", v, cint(-e[1] if e[2] else e[1]))
        return mk("proj", v, str(e))

    def setp(s, st, v, path, x):
        if not path: return x
        e = path[0]
        if e[0] == "f":
            if v.op == "adt" and (e[2] is None or v.a[1] == e[2]) and e[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1]] = s.setp(st, fs[e[1]], path[1:], x)
                return mk("adt", v.a[0], v.a[1], tuple(fs))
            if v.op == "tup" and e[1] < len(v.a[0]):
                fs = list(v.a[0])
                fs[e[1]] = s.setp(st, fs[e[1]], path[1:], x)
                return mk("tup", tuple(fs))
            if v.op == "clo":
                fs = list(v.a[1])
                fs[e[1]] = s.setp(st, fs[e[1]], path[1:], x)
                return mk("clo", v.a[0], tuple(fs))
            b, ov = (v.a[0], dict(v.a[1])) if v.op == "with" else (v, {})
            cur = ov.get(e[3])
            if cur is None: cur = s.proj(st, b, e)
            ov[e[3]] = s.setp(st, cur, path[1:], x)
            return mk("with", b, tuple(sorted(ov.items(), key=lambda kv: kv[0])))
        if e[0] == "i" and v.op == "arr" and e[1].op == "c" and 0 <= e[1].a[1] < len(v.a[0]):
            fs = list(v.a[0])
            fs[e[1].a[1]] = s.setp(st, fs[e[1].a[1]], path[1:], x)
            return mk("arr", tuple(fs))
        return mk("upd", v, "elemwrite", str(e[0]), (x,))

    def wr(s, st, root, path, x):
        if not path:
            st.store[root] = x
            return
        if root[0] == "o" and root[1].op == "ucell":
            st.store[root] = x      # the contents of a box that is filled in place
            return
        v = st.store.get(root)
        if v is None: v = root[1] if root[0] == "o" else UNINIT
        # writing through a stored reference inside the path is resolved by locate(); here v is a plain value
        st.store[root] = s.setp(st, v, path, x)

    def locate(s, st, fr, place):
        root = (fr.id, place[0])
        path = ()
        types = fr.fn.types
        ty = fr.fn.locals[place[0]]
        var = None
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = s.rd(st, root, path)
                tk = types[ty] if ty is not None else None
                if v.op == "ref":
                    root, path = v.a
                elif tk is not None and tk[0] == "adt":  # Box
                    pass
                else:
                    root, path = ("o", v), ()
                if tk is None: ty = None
                elif tk[0] in ("ref", "ptr"): ty = tk[1]
                elif tk[0] == "adt" and tk[2]: ty = tk[2][0]
                else: ty = None
                var = None
            elif k == "d":
                var = e[1]
            elif k == "f":
                lab = s.label(types, ty, var, e[1])
                if lab.startswith(("alloc::Box.", "core::Unique.", "core::NonNull.", "core::MaybeUninit.",
                                   "core::ManuallyDrop.", "core::MaybeDangling.")):
                    pass  # wrappers are transparent
                else:
                    # a reference stored where a struct is expected (transparent wrappers)
                    if path == () or True:
                        v = s.rd(st, root, path)
                        if v.op == "ref":
                            root, path = v.a
                    path = path + (("f", e[1], var, lab),)
                ty = e[2]
                var = None
            elif k == "i":
                iv = s.rd(st, (fr.id, e[1]), ())
                v = s.rd(st, root, path)
                if v.op == "ref": root, path = v.a
                path = path + (("i", s.freeze(st, iv)),)
                ty = types[ty][1] if ty is not None and types[ty][0] in ("slice", "array") else None
            elif k == "ci":
                v = s.rd(st, root, path)
                if v.op == "ref": root, path = v.a
                path = path + (("ci", e[1], e[3]),)
                ty = types[ty][1] if ty is not None and types[ty][0] in ("slice", "array") else None
            else:
                path = path + ((k, str(e)),)
                ty = None
        return root, path, ty

    def label(s, types, ty, var, i):
        if ty is None: return "?.%d" % i
        t = types[ty]
        if t[0] == "adt":
            a = s.P.adts.get(t[1])
            if a and a["variants"]:
                vi = var or 0
                if vi < len(a["variants"]):
                    v = a["variants"][vi]
                    fn = v[2][i][0] if i < len(v[2]) else str(i)
                    if a["kind"] == "enum": return "%s@%s.%s" % (t[1], v[0], fn)
                    return "%s.%s" % (t[1], fn)
            return "%s.%d" % (t[1], i)
        if t[0] == "closure": return "closure.%d" % i
        return "%s.%d" % (t[0], i)

    def freeze(s, st, v, d=0):
        op = v.op
        if op in ("c", "arg", "call", "fld", "uninit", "hv", "lin", "bin", "elem", "iter", "fn"): 
            return v
        if op == "ref":
            if d > 60: return mk("deep")
            return s.freeze(st, s.rd(st, v.a[0], v.a[1]), d + 1)
        if op == "adt":
            fs = tuple(s.freeze(st, x, d + 1) for x in v.a[2])
            return v if fs == v.a[2] else mk("adt", v.a[0], v.a[1], fs)
        if op == "tup" or op == "arr":
            fs = tuple(s.freeze(st, x, d + 1) for x in v.a[0])
            return v if fs == v.a[0] else mk(op, fs)
        if op == "with":
            ov = tuple((l, s.freeze(st, x, d + 1)) for l, x in v.a[1])
            return mk("with", v.a[0], ov)
        return v

    # ---- constants -------------------------------------------------------
    def const(s, fn, k, ty):
        t = k[0]
        if t == "int": return cint(k[1])
        if t == "str": return cstr(k[1])
        if t == "bytes": return mk("c", "bytes", tuple(k[1]))
        if t == "float": return mk("c", "float", k[1])
        if t == "fn": return s.fnterm(k[1])
        if t == "agg":
            tt = fn.types[k[1]]
            fs = tuple(s.const(fn, x, None) for x in k[3])
            if tt[0] == "adt": return mk("adt", tt[1], k[2], fs)
            if tt[0] == "array": return mk("arr", fs)
            return mk("tup", fs)
        if t == "ref": return s.const(fn, k[1], None)
        if t == "closure": return mk("clo", k[1], ())
        if t == "static":
            # a table that is never changed is what it is initialised with
            v = s.constbody(k[1]) if k[1] in s.P.fns else None
            if v is not None and all(x.op in ("c", "adt", "arr", "tup", "fn") for x in subterms(v)) and not any("Cell" in x.a[0] or "Lock" in x.a[0] or "Mutex" in x.a[0] or "Atomic" in x.a[0] for x in subterms(v) if x.op == "adt"): return v
            return mk("static", k[1])
        if t == "item":
            v = s.constbody(k[1])
            if v is not None: return v
            if k[2]: return s.const(fn, k[2], ty)
            return mk("constitem", k[1])
        if t == "promoted":
            v = s.constbody(k[1])
            if v is not None: return v
            return mk("promoted", k[1])
        return mk("opaqueconst", k[1] if len(k) > 1 else str(k))

    def fnterm(s, c):
        key = (c["dkey"], c["key"], tuple(c["targs"]))
        t = mk("fn", c["res"] or c["def"], key)
        s.__dict__.setdefault("_callee", {})[t] = c
        return t

    def constbody(s, key):
        if key in s.constcache: return s.constcache[key]
        f = s.P.fns.get(key)
        if f is None: return None
        s.constcache[key] = None
        e = Engine(s.P, max_paths=4, max_steps=20000)
        e.constcache = s.constcache
        try:
            ps = e.run(f, [])
            s.__dict__.setdefault("_callee", {}).update(getattr(e, "_callee", {}))
        except Inconclusive:
            ps = []
        v = ps[0].value if len(ps) == 1 and ps[0].kind == "ret" else None
        s.constcache[key] = v
        return v

    # ---- driver ----------------------------------------------------------
    def run(s, fn, args, facts=None, store=None):
        """All abstract paths of fn; args are terms."""
        for rnd in range(60):
            try:
                return s._run(fn, args, facts, store)
            except Restart:
                continue
            except Inconclusive:
                if not s.unrolling: raise
                s.unrolling = False
                s.havoc.clear()
        raise Inconclusive("loop fixpoint did not stabilise in %s" % fn.nice)

    def args_for(s, fn, prefix=""):
        nm = fn.locname()
        return [mk("arg", prefix + nm.get(i + 1, "_%d" % (i + 1))) for i in range(fn.argc)]

    def _run(s, fn, args, facts, store):
        st = State()
        st.store = dict(store or {})
        st.facts = dict(facts or {})
        st.events = None
        st.frames = []
        st.dead = False
        s.paths = []
        s.steps = 0
        if s.pin is not None: s.pin.reset()
        s.enter(st, fn, args, None, None, "")
        s.work = [st]
        while s.work:
            st = s.work.pop()
            s.explore(st)
            if len(s.paths) > s.max_paths: raise Inconclusive("too many paths in %s" % fn.nice)
        return s.paths

    def enter(s, st, fn, args, dest, target, ctx):
        f = Frame()
        f.fn = fn
        f.id = ctx + "/" + fn.key
        f.bb = 0
        f.visited = {}
        f.dest = dest
        f.target = target
        f.retmap = None
        f.chain = None
        f.unroll = {}
        f.tag = f.id
        st.frames.append(f)
        s.analysed.add(fn.key)
        for i, a in enumerate(args):
            st.store[(f.id, i + 1)] = a
        return f

    def finish(s, st, kind, value=None, info=None):
        p = Path()
        p.facts = st.facts
        p.events = st.evlist()
        p.kind = kind
        p.value = value
        p.info = info
        p.store = st.store
        s.paths.append(p)

    def ev(s, st, e):
        st.events = (e, st.events)

    def loopctx(s, st):
        return tuple(f.lid(h) for f in st.frames for h in f.visited)

    # ---- stepping --------------------------------------------------------
    def explore(s, st):
        while True:
            s.steps += 1
            if s.steps > s.max_steps: raise Inconclusive("step budget")
            fr = st.frames[-1]
            fn = fr.fn
            b = fr.bb
            loops = fn.loops()
            if fr.visited:
                for h in list(fr.visited):
                    if b not in loops[h]: del fr.visited[h]
            if fr.unroll and any(b not in loops[h] for h in fr.unroll): fr.setunroll({h: k for h, k in fr.unroll.items() if b in loops[h]})
            if b in loops and b not in fr.visited and s.unrolls(st, fr, b):
                k = fr.unroll.get(b, 0) + 1
                if k > 2 * LONG: raise Inconclusive("unrolling does not end")
                fr.setunroll({**fr.unroll, b: k})
            elif b in loops and s.pin is not None and s.pin.wants(s, fr, b):
                if not s.pin.head(s, st, fr, b): return
            elif b in loops:
                if b in fr.visited:
                    s.loopback(st, fr, b)
                    return
                s.loophead(st, fr, b)
            blk = fn.blocks[b]
            for stm in blk["s"]:
                if not s.stmt(st, fr, stm): return
            if not s.term(st, fr, blk["t"], blk["l"]): return

    def unrolls(s, st, fr, b):
        """The loop is driven by an iterator over a short list of values that are all known one by one."""
        if b in fr.unroll: return True
        if not s.unrolling: return False
        blk = fr.fn.blocks[b]
        t = blk["t"]
        if t[0] != "call" or t[1][0] != "k" or t[1][1][0] != "fn" or t[1][1][1].get("def") != "core::Iterator::next" or t[2][0][0] not in "cm" or t[2][0][1][1]: return False
        x = t[2][0][1][0]
        ref = None
        defs = {m[1][0]: m[2] for m in blk["s"] if m[0] == "=" and not m[1][1]}
        while x in defs and ref is None:
            d = defs[x]
            if d[0] == "ref" and not d[1][1]: ref = mk("ref", (fr.id, d[1][0]), ())
            elif d[0] == "ref" and [q[0] for q in d[1][1]] == ["*"]: x = d[1][0]
            elif d[0] == "use" and d[1][0] in "cm" and not d[1][1][1]: x = d[1][1][0]
            else: return False
        if ref is None: ref = s.rd(st, (fr.id, x), ())
        v, n = ref, 0
        while v.op == "ref" and n < 20: v, n = s.rd(st, v.a[0], v.a[1]), n + 1
        if v.op != "iter": return False
        import models
        sl = models.short_list(v)
        if sl is None or sl[0] or not 0 < len(sl[1].a[1].a[0]) <= (UNROLL if fr.fn.branches(b) > 1 else LONG): return False
        old = fr.unroll
        fr.unroll = {**old, b: 0}
        try: return models.place_of_iter(s, st, ref, v) is not None
        finally: fr.unroll = old

    def loophead(s, st, fr, b):
        lid = (fr.tag, b)
        hs = s.havoc.setdefault(lid, {})
        for loc, kind in hs.items():
            root, path = loc
            try:
                v = s.rd(st, root, path)
            except Exception:
                v = UNINIT
            if kind == "upd":
                # contents that start as a constant have no identity of their own
                w = v
                while w.op == "upd": w = w.a[0]
                s.wr(st, root, path, mk("upd", v, "loop", lid, (loc,) if w.op in ("arr", "c") else ()))
            else:
                s.wr(st, root, path, mk("hv", lid, loc, v if v.op != "uninit" else None))
        fr.visited[b] = dict(st.store)
        s.ev(st, Ev("loop", "head", (), None, fr.fn, fr.fn.blocks[b]["l"], fr.tag, b, s.loopctx(st)))

    def loopback(s, st, fr, b):
        lid = (fr.tag, b)
        head = fr.visited[b]
        hs = s.havoc.setdefault(lid, {})
        changed = False
        pre = fr.id + "/"
        live = {f.id for f in st.frames}
        for root, v in st.store.items():
            if root[0] != "o" and root[0] not in live: continue
            if root[0] != "o" and root[0] == fr.id and root not in head:
                continue  # local first assigned in the loop: dead or reassigned at the head
            old = head.get(root)
            if root[0] == "o" and old is None and root[1].op in ("itercell", "clocell"): continue  # written anew before each use
            if old is None:
                if root[0] == "o": old = root[1]
                else: continue
            if old is v: continue
            if root[0] == fr.id and s.dead_at(fr.fn, b, root[1]): continue
            if root[0] == "o" and root not in head and s.of_iteration(root[1], lid):
                # an object only this iteration knows, within one that outlives it
                t = root[1]
                while True:
                    if t.op in ("idx", "elem", "fld", "upd"): t = t.a[0]
                    elif t.op == "call" and str(t.a[0]).startswith("map.") and t.a[1]: t = t.a[1][0]
                    else: break
                if t.op == "arg":
                    loc = (("o", t), ())
                    if loc not in hs:
                        hs[loc] = "upd"
                        changed = True
                    continue
            for path, kind in s.diff(st, old, v, ()):
                loc = (root, path)
                cur = hs.get(loc)
                if cur == "hv" or cur == kind: continue
                # covered by a shorter path
                if any(l[0] == root and path[:len(l[1])] == l[1] and k == "hv" for l, k in hs.items()): continue
                hs[loc] = kind if cur is None else "hv"
                changed = True
        if changed:
            if sum(len(x) for x in s.havoc.values()) > 4000: raise Inconclusive("havoc blow-up")
            raise Restart()
        if s.keep_loopback:
            s.finish(st, "loop", None, lid)

    def of_iteration(s, t, lid):
        """Term that refers to values of an iteration of the loop."""
        return any((x.op == "hv" and x.a[0] == lid) or (x.op == "upd" and x.a[1] == "loop" and x.a[2] == lid) for x in subterms(t))

    def dead_at(s, fn, b, local):
        """local is not live at block b (simple liveness on whole locals)."""
        return local not in live_in(fn)[b]

    def diff(s, st, a, b, path):
        if a is b: return []
        if a.op == "hv" and b.op == "hv" and a.a[:2] == b.a[:2]: return []
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and a.a[2]:
            r = []
            vs = s.P.adts.get(a.a[0])
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                lab = "?"
                var = None
                if vs:
                    vv = vs["variants"][a.a[1]]
                    n = vv[2][i][0] if i < len(vv[2]) else str(i)
                    if vs["kind"] == "enum":
                        lab = "%s@%s.%s" % (a.a[0], vv[0], n); var = a.a[1]
                    else:
                        lab = "%s.%s" % (a.a[0], n)
                r += s.diff(st, x, y, path + (("f", i, var, lab),))
            return r
        if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            r = []
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                r += s.diff(st, x, y, path + (("f", i, None, "tuple.%d" % i),))
            return r
        if b.op == "with" or a.op == "with":
            ba, oa = (a.a[0], dict(a.a[1])) if a.op == "with" else (a, {})
            bb, ob = (b.a[0], dict(b.a[1])) if b.op == "with" else (b, {})
            if ba is bb:
                r = []
                for lab in set(oa) | set(ob):
                    e = ("f", 0, None, lab)
                    x = oa.get(lab) or s.proj(st, ba, e)
                    y = ob.get(lab) or s.proj(st, bb, e)
                    r += s.diff(st, x, y, path + (e,))
                return r
        if base(a) is base(b): return [(path, "upd")]
        return [(path, "hv")]

    def unsigned(s, st, fr, o):
        """The operand's type is an unsigned integer."""
        ty = o[2] if o[0] == "k" else s.locate(st, fr, o[1])[2]
        t = fr.fn.types[ty] if isinstance(ty, int) else None
        return t is None or t[0] == "uint"

    def operand(s, st, fr, o):
        if o[0] == "k": return s.const(fr.fn, o[1], o[2])
        root, path, _ = s.locate(st, fr, o[1])
        return s.rd(st, root, path)

    def stmt(s, st, fr, m):
        k = m[0]
        if k == "=":
            v = s.rvalue(st, fr, m[2], m)
            root, path, _ = s.locate(st, fr, m[1])
            s.wr(st, root, path, v)
        elif k == "sd":
            root, path, ty = s.locate(st, fr, m[1])
            v = s.rd(st, root, path)
            if v.op == "adt": s.wr(st, root, path, mk("adt", v.a[0], m[2], v.a[2]))
        elif k == "dead":
            pass
        return True

    def rvalue(s, st, fr, r, m):
        k = r[0]
        if k == "use": return s.operand(st, fr, r[1])
        if k == "ref":
            root, path, ty = s.locate(st, fr, r[1])
            if root[0] == "o" and path == () and root not in st.store: return root[1]
            return mk("ref", root, path)
        if k == "adt":
            return mk("adt", r[1], r[2], tuple(s.operand(st, fr, x) for x in r[3]))
        if k == "tuple": return mk("tup", tuple(s.operand(st, fr, x) for x in r[1]))
        if k == "array": return mk("arr", tuple(s.operand(st, fr, x) for x in r[1]))
        if k == "closure": return mk("clo", r[1], tuple(s.operand(st, fr, x) for x in r[2]))
        if k == "discr":
            root, path, ty = s.locate(st, fr, r[1])
            v = s.rd(st, root, path)
            while v.op == "ref": v = s.rd(st, v.a[0], v.a[1])
            return s.discr(st, v, fr.fn.types[r[2]])
        if k == "cast":
            v = s.operand(st, fr, r[2])
            if "IntToInt" in r[1]:
                if v.op == "c": return v
                return v  # width changes are ignored (documented)
            if r[1] == "BoxDerefTransmute":
                while v.op == "fld": v = v.a[0]
                if v.op == "ucell": return mk("ref", ("o", v), ())
                return s.operand(st, fr, r[2])
            if r[1] in ("FloatToInt", "IntToFloat", "FloatToFloat"): return mk("cast", r[1], s.freeze(st, v))
            return v
        if k == "bin":
            a = s.freeze(st, s.operand(st, fr, r[2]))
            b = s.freeze(st, s.operand(st, fr, r[3]))
            return s.binop(st, r[1], a, b)
        if k == "un":
            a = s.freeze(st, s.operand(st, fr, r[2]))
            if r[1] == "Not":
                if a.op == "c": return cint(1 - a.a[1]) if a.a[1] in (0, 1) else mk("un", "Not", a)
                if a.op == "not": return a.a[0]
                return mk("not", a)
            if r[1] == "PtrMetadata": return s.length(st, a)
            if a.op == "c" and r[1] == "Neg": return cint(-a.a[1])
            return mk("un", r[1], a)
        if k == "repeat": return mk("repeat", s.freeze(st, s.operand(st, fr, r[1])), r[2])
        return mk("rv", str(r)[:80], (fr.tag, fr.bb))

    def length(s, st, a):
        if a.op == "c" and a.a[0] == "str": return cint(len(a.a[1].encode()))
        if a.op == "c" and a.a[0] == "bytes": return cint(len(a.a[1]))
        if a.op == "arr": return cint(len(a.a[0]))
        if a.op == "upd" and a.a[1] == "push": return add(s.length(st, a.a[0]), cint(1))
        if a.op == "upd" and a.a[1] == "append": return add(s.length(st, a.a[0]), s.length(st, a.a[3][0]))
        return mk("len", a)

    def discr(s, st, v, ty):
        if v.op == "adt":
            a = s.P.adts.get(v.a[0])
            return cint(int(a["variants"][v.a[1]][1])) if a else cint(v.a[1])
        if v.op == "c": return v
        if v.op == "entry":
            g = v.a[4]
            if g.op == "adt": return cint(0 if g.a[1] == 1 else 1)
            return mk("not", mk("discr", s.freeze(st, g), "core::Option"))
        nm = ty[1] if ty[0] == "adt" else None
        return mk("discr", s.freeze(st, v), nm)

    def binop(s, st, op, a, b):
        ov = op.endswith("WithOverflow")
        o = op[:-12] if ov else (op[:-9] if op.endswith("Unchecked") else op)
        r = None
        if o in ("Add", "Sub"):
            fl = a.op == "c" and a.a[0] == "float" or b.op == "c" and b.a[0] == "float"
            r = mk("bin", o, a, b) if fl else add(a, b, 1 if o == "Add" else -1)
        elif a.op == "c" and b.op == "c" and a.a[0] == "int" and b.a[0] == "int":
            x, y = a.a[1], b.a[1]
            try:
                r = {"Mul": lambda: cint(x * y), "Div": lambda: cint(x // y), "Rem": lambda: cint(x % y),
                     "Eq": lambda: cint(int(x == y)), "Ne": lambda: cint(int(x != y)), "Lt": lambda: cint(int(x < y)),
                     "Le": lambda: cint(int(x <= y)), "Gt": lambda: cint(int(x > y)), "Ge": lambda: cint(int(x >= y)),
                     "BitAnd": lambda: cint(x & y), "BitOr": lambda: cint(x | y), "BitXor": lambda: cint(x ^ y),
                     }.get(o, lambda: None)()
            except ZeroDivisionError:
                r = None
        if r is None:
            if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                ca, pa = lin_parts(add(a, b, -1))
                if not pa and not (a.op == "c" and a.a[0] == "float"):
                    r = cint(int({"Eq": ca == 0, "Ne": ca != 0, "Lt": ca < 0, "Le": ca <= 0, "Gt": ca > 0, "Ge": ca >= 0}[o]))
                else:
                    # a bool compared with a constant
                    if o in ("Eq", "Ne") and b.op == "c" and b.a[1] in (0, 1) and s.isbool(a):
                        pos = (b.a[1] == 1) == (o == "Eq")
                        r = a if pos else mk("not", a)
                    elif o == "Ne": r = mk("not", s.eqterm(a, b))
                    elif o == "Eq": r = s.eqterm(a, b)
                    elif o == "Lt": r = mk("lt", a, b)
                    elif o == "Gt": r = mk("lt", b, a)
                    elif o == "Ge": r = mk("not", mk("lt", a, b))
                    else: r = mk("not", mk("lt", b, a))
            else:
                r = mk("bin", o, a, b)
        if ov: return mk("tup", (r, mk("ovf", r)))
        return r

    def isbool(s, t):
        return t.op in ("not", "lt", "eq", "strcmp") or (t.op == "call" and t.a[0].split("::")[-1].startswith(("is_", "contains", "eq", "ne", "starts_with", "ends_with")))

    def eqterm(s, a, b):
        if a is b: return TRUE
        if a.op == "c" and b.op == "c": return cint(int(a is b))
        if a.op == "c" or (b.op != "c" and id(a) > id(b)): a, b = b, a
        return mk("eq", a, b)

    # ---- facts -----------------------------------------------------------
    def fact(s, st, t):
        """Known value of term t: int for bools/discriminants, or None."""
        if t.op == "c": return t.a[1]
        if t.op == "not":
            v = s.fact(st, t.a[0])
            return None if v is None else 1 - v
        v = st.facts.get(t)
        if isinstance(v, int): return v
        if t.op == "discr":
            x = t.a[0]
            if x.op == "call" and x.a[0] in TAKE_ONE and len(x.a[1]) == 1:
                k = s.fact(st, mk("eq", s.length(st, x.a[1][0]), cint(0)))
                if k is not None: return 1 - k
        if t.op == "eq":
            a, b = t.a
            if a.op == "discr" and b.op == "c":
                k = st.facts.get(a)
                if isinstance(k, int): return int(k == b.a[1])
                if isinstance(k, frozenset) and b.a[1] in k: return 0
            # known constant equality on a
            k = st.facts.get(("const", a))
            if k is not None and b.op == "c": return int(k is b)
            k2 = st.facts.get(("const", b))
            if k is not None and k2 is not None: return int(k is k2)
        if t.op in ("lt", "eq"): return s.ivfact(st, t)
        if t.op == "call" and t.a[0] == "core::str::contains":
            for f, r in st.facts.items():
                if isinstance(f, tuple) and f[0] == "iv" and f[1].op == "len" and split_pieces(f[1]) == t.a[1]:
                    if r[0] is not None and r[0] > 1: return 1
                    if r[1] == 1: return 0
        return None

    # intervals of integer atoms, for comparisons of one atom with a constant
    def single(s, t):
        """(atom, k, c): a - b == k*atom + c for a comparison term."""
        a, b = t.a
        for x in (a, b):
            if x.op == "c" and x.a[0] != "int": return None
        c, parts = lin_parts(add(a, b, -1))
        if len(parts) != 1: return None
        (x, k), = parts.items()
        return (x, k, c) if k in (1, -1) else None

    def iv(s, st, x):
        v = st.facts.get(x)
        if isinstance(v, int): return v, v
        r = st.facts.get(("iv", x))
        if r is not None: return r
        d = split_pieces(x)
        if d is not None:
            # one piece more than the text contains separators
            k = st.facts.get(mk("call", "core::str::contains", d, None)) if len(d) == 2 else None
            return (2, None) if k == 1 else (1, 1) if k == 0 else (1, None)
        # a segmenter reports the start of the text as its first boundary
        if x.op == "call" and x.a[0] == "iter.count" and any(y.op == "call" and y.a[0].endswith("::segment_str") for y in subterms(x)): return 1, None
        return (0 if x.op in ("len", "index") or (x.op == "call" and x.a[0] == "iter.count") else None), None

    def ivfact(s, st, t):
        q = s.single(t)
        if q is None: return None
        x, k, c = q
        lo, hi = s.iv(st, x)
        if lo is None and hi is None: return None
        # range of k*x + c
        l, h = (lo, hi) if k == 1 else (None if hi is None else -hi, None if lo is None else -lo)
        l = None if l is None else l + c
        h = None if h is None else h + c
        if t.op == "lt":
            if h is not None and h < 0: return 1
            if l is not None and l >= 0: return 0
            return None
        if l is not None and l > 0 or h is not None and h < 0: return 0
        if l == 0 and h == 0: return 1
        return None

    def ivset(s, st, t, v):
        q = s.single(t)
        if q is None: return
        x, k, c = q
        if x.op == "c": return
        lo, hi = s.iv(st, x)
        if t.op == "lt":
            # v: k*x + c <= -1, else k*x + c >= 0
            if (k == 1) == (v == 1):
                b = (-c - 1) if k == 1 else c
                hi = b if hi is None else min(hi, b)
            else:
                b = -c if k == 1 else c + 1
                lo = b if lo is None else max(lo, b)
        else:
            z = -c if k == 1 else c
            if v == 1: lo = hi = z
            elif z == lo: lo = lo + 1
            elif z == hi: hi = hi - 1
            else: return
        st.facts[("iv", x)] = (lo, hi)

    def setfact(s, st, t, v):
        """Record t == v; False if contradictory."""
        if t.op == "c": return t.a[1] == v
        if t.op == "not": return s.setfact(st, t.a[0], 1 - v)
        cur = s.fact(st, t)
        if cur is not None: return cur == v
        ne = st.facts.get(t)
        if isinstance(ne, frozenset) and v in ne: return False
        st.facts[t] = v
        if t.op == "eq":
            a, b = t.a
            if a.op == "discr" and b.op == "c":
                return s.setfact(st, a, b.a[1]) if v == 1 else s.notfact(st, a, [b.a[1]])
            if v == 1:
                if b.op == "c": st.facts[("const", a)] = b
        if t.op in ("lt", "eq"): s.ivset(st, t, v)
        if t.op == "discr" and v in (0, 1) and t.a[0].op == "call" and t.a[0].a[0] in TAKE_ONE and len(t.a[0].a[1]) == 1:
            l = s.length(st, t.a[0].a[1][0])
            if l.op != "c" and not s.setfact(st, mk("eq", l, cint(0)), 1 - v): return False
        return s.assume is None or s.assume(s, st, t, v)

    def notfact(s, st, t, vals):
        cur = s.fact(st, t)
        if cur is not None: return cur not in vals
        if t.op == "not":
            return True
        if t.op in ("len", "lin", "index"):
            for v in sorted(vals):
                q = mk("eq", t, cint(v))
                if s.fact(st, q) == 1: return False
                if s.fact(st, q) is None: s.setfact(st, q, 0)
        ne = st.facts.get(t)
        ne = (ne if isinstance(ne, frozenset) else frozenset()) | frozenset(vals)
        st.facts[t] = ne
        # single remaining variant
        if t.op == "discr" and t.a[1]:
            a = s.P.adts.get(t.a[1])
            if a and a["kind"] == "enum":
                rest = [int(v[1]) for v in a["variants"] if int(v[1]) not in ne]
                if not rest: return False
                if len(rest) == 1: st.facts[t] = rest[0]
        elif s.isbool(t):
            rest = [x for x in (0, 1) if x not in ne]
            if not rest: return False
            if len(rest) == 1: return s.setfact2(st, t, rest[0])
        return s.assume is None or s.assume(s, st, t, None)

    def setfact2(s, st, t, v):
        st.facts.pop(t, None)
        return s.setfact(st, t, v)

    # ---- terminators -----------------------------------------------------
    def goto(s, st, b):
        st.frames[-1].bb = b
        return True

    def term(s, st, fr, t, line):
        k = t[0]
        if k == "goto": return s.goto(st, t[1])
        if k == "return": return s.ret(st)
        if k == "switch":
            v = s.freeze(st, s.operand(st, fr, t[1]))
            dt = fr.fn.types[t[4]]
            kn = s.fact(st, v)
            if kn is not None:
                for val, b in t[2]:
                    if int(val) == kn or (dt[0] == "int" and s.wrap(int(val)) == kn): return s.goto(st, b)
                return s.goto(st, t[3])
            outs = []
            for val, b in t[2]:
                n = st.fork()
                if s.setfact(n, v, int(val)):
                    n.frames[-1].bb = b
                    outs.append(n)
            n = st.fork()
            vals = [int(x[0]) for x in t[2]]
            ok = True
            if dt[0] == "bool" and len(vals) == 1: ok = s.setfact(n, v, 1 - vals[0])
            elif v.op == "not": ok = s.setfact(n, v, 1 - vals[0]) if len(vals) == 1 else True
            else: ok = s.notfact(n, v, vals)
            if ok and fr.fn.blocks[t[3]]["t"][0] != "unreachable":
                n.frames[-1].bb = t[3]
                outs.append(n)
            s.work.extend(reversed(outs))
            return False
        if k == "drop":
            tys = s.P.tystr(fr.fn.types, t[3])
            if GUARD.search(tys):
                root, path, _ = s.locate(st, fr, t[1])
                v = s.rd(st, root, path)
                s.ev(st, Ev("drop", tys, (s.freeze(st, v),), None, fr.fn, line, fr.id))
            return s.goto(st, t[2])
        if k == "assert":
            c = s.freeze(st, s.operand(st, fr, t[1]))
            exp = 1 if t[2] else 0
            kn = s.fact(st, c)
            msg = t[3]
            if kn is not None:
                if kn == exp: return s.goto(st, t[4])
                s.panic(st, fr, line, "assert " + msg[0], ())
                return False
            if s.panics:
                if msg[0] == "bounds":
                    n = st.fork()
                    if s.setfact(n, c, 1 - exp):
                        s.panic(n, n.frames[-1], line, "bounds", tuple(s.freeze(st, s.operand(st, fr, x)) for x in msg[1:3]))
                elif str(msg[1]).startswith(("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed", "InvalidEnumConstruction")):
                    return s.goto(st, t[4])     # compiler's checks of its own code for boxes
                elif msg[0] == "overflow" and msg[1].startswith("Sub") and s.underflow:
                    a, b = (s.freeze(st, s.operand(st, fr, x)) for x in msg[2:4])
                    less = s.binop(st, "Lt", a, b)
                    if s.unsigned(st, fr, msg[2]) and s.fact(st, less) != 0:
                        n = st.fork()
                        if s.setfact(n, less, 1): s.panic(n, n.frames[-1], line, "underflow", (a, b))
                        if not s.setfact(st, less, 0): return False
                elif msg[0] != "overflow":
                    n = st.fork()
                    s.panic(n, n.frames[-1], line, "assert " + str(msg[1])[:60], ())
            if c.op != "ovf" and not (c.op == "not" and c.a[0].op == "ovf"):
                if not s.setfact(st, c, exp): return False
            return s.goto(st, t[4])
        if k == "call": return s.call(st, fr, t, line)
        if k in ("unreachable",): return False
        if k in ("resume", "abort"): return False
        raise Inconclusive("terminator %s" % (t,))

    def wrap(s, v):
        for bits in (8, 16, 32, 64, 128):
            if v < (1 << bits):
                return v - (1 << bits) if v >= (1 << (bits - 1)) else v
        return v

    def panic(s, st, fr, line, why, args):
        if s.panics:
            s.finish(st, "panic", None, (why, args, fr.fn, line, fr.id))

    def ret(s, st):
        fr = st.frames.pop()
        v = st.store.get((fr.id, 0), UNIT)
        if not st.frames:
            s.finish(st, "ret", s.freeze(st, v))
            return False
        # references into the finished frame cannot escape except through transparent models
        v = s.unscope(st, v, fr.id)
        for k in [k for k in st.store if k[0] == fr.id]:
            del st.store[k]
        caller = st.frames[-1]
        root, path, _ = s.locate(st, caller, fr.dest)
        s.wr(st, root, path, v)
        caller.bb = fr.target
        return fr.target is not None

    def unscope(s, st, v, fid, d=0):
        if v.op == "ref":
            if v.a[0][0] == fid:
                return s.unscope(st, s.rd(st, v.a[0], v.a[1]), fid, d + 1)
            return v
        if v.op == "adt" and v.a[2]:
            return mk("adt", v.a[0], v.a[1], tuple(s.unscope(st, x, fid, d + 1) for x in v.a[2]))
        if v.op in ("tup", "arr"):
            return mk(v.op, tuple(s.unscope(st, x, fid, d + 1) for x in v.a[0]))
        if v.op == "clo":
            return mk("clo", v.a[0], tuple(s.unscope(st, x, fid, d + 1) for x in v.a[1]))
        if v.op == "iter":
            return mk("iter", v.a[0], *[s.unscope(st, x, fid, d + 1) if isinstance(x, T) else x for x in v.a[1:]])
        return v

    # ---- calls -----------------------------------------------------------
    def call(s, st, fr, t, line):
        import models
        s.calls_seen += 1
        f = s.operand(st, fr, t[1])
        args = [s.operand(st, fr, x) for x in t[2]]
        site = (fr.tag, fr.bb)
        c = Call(s, st, fr, f, args, t, t[7] or line, site)
        return models.dispatch(c)

    def do_inline(s, c, fn, args):
        st = c.st
        if c.target is None and False: return False
        fr = s.enter(st, fn, args, c.t[3], c.target, c.fr.tag + "@%d" % c.fr.bb)
        return True


class Call:
    __slots__ = ("e", "st", "fr", "f", "args", "t", "line", "site", "target", "name", "defname", "cal", "types")

    def __init__(s, e, st, fr, f, args, t, line, site):
        s.e = e; s.st = st; s.fr = fr; s.f = f; s.args = args; s.t = t; s.line = line; s.site = site
        s.target = t[4]
        s.cal = None
        if f.op == "fn":
            s.cal = e._callee[f]
            s.name = s.cal["res"] or s.cal["def"]
            s.defname = s.cal["def"]
        else:
            s.name = "<indirect>"
            s.defname = "<indirect>"
        s.types = fr.fn.types

    def fz(s, i=None):
        if i is None: return tuple(s.e.freeze(s.st, a) for a in s.args)
        return s.e.freeze(s.st, s.args[i])

    def argty(s, i): return s.types[s.t[5][i]]
    def argtystr(s, i): return s.e.P.tystr(s.types, s.t[5][i])
    def destty(s): return s.types[s.t[6]]
    def desttystr(s): return s.e.P.tystr(s.types, s.t[6])

    def targstr(s, i): return s.e.P.tystr(s.types, s.cal["targs"][i])

    def deliver(s, st, v):
        """Write the result in state st and continue there; returns True to keep stepping (only for s.st)."""
        fr = st.frames[-1]
        if s.target is None: return False
        root, path, _ = s.e.locate(st, fr, s.t[3])
        s.e.wr(st, root, path, v)
        fr.bb = s.target
        return True

    def event(s, st, kind, name, args, ret, extra=None):
        s.e.ev(st, Ev(kind, name, args, ret, s.fr.fn, s.line, s.fr.id, extra, s.e.loopctx(st)))

    def fork_deliver(s, outs):
        """outs: list of (state, value)"""
        for st, v in reversed(outs):
            if s.deliver(st, v): s.e.work.append(st)
        return False


_live = {}
strict_live = {}   # without the locals that are kept because they are borrowed somewhere


def live_in(fn):
    r = _live.get(fn.key)
    if r is not None and r[0] is fn: return r[1]
    n = len(fn.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]

    def pl(p, b, write=False):
        if write and not p[1]:
            dfn[b].add(p[0])
            return
        if p[0] not in dfn[b]: use[b].add(p[0])
        for e in p[1]:
            if e[0] == "i" and e[1] not in dfn[b]: use[b].add(e[1])

    def opn(o, b):
        if o[0] in "cm": pl(o[1], b)

    def walk(r, b):
        k = r[0]
        if k in ("use",): opn(r[1], b)
        elif k == "ref": pl(r[1], b)
        elif k == "discr": pl(r[1], b)
        elif k == "cast": opn(r[2], b)
        elif k == "bin": opn(r[2], b); opn(r[3], b)
        elif k == "un": opn(r[2], b)
        elif k == "repeat": opn(r[1], b)
        elif k == "adt": [opn(x, b) for x in r[3]]
        elif k in ("tuple", "array"): [opn(x, b) for x in r[1]]
        elif k == "closure": [opn(x, b) for x in r[2]]

    for b, blk in enumerate(fn.blocks):
        for m in blk["s"]:
            if m[0] == "=":
                walk(m[2], b)
                pl(m[1], b, True)
            elif m[0] == "sd": pl(m[1], b)
        t = blk["t"]
        if t[0] == "switch": opn(t[1], b)
        elif t[0] == "drop": pl(t[1], b)
        elif t[0] == "assert": opn(t[1], b)
        elif t[0] == "call":
            opn(t[1], b)
            for x in t[2]: opn(x, b)
            pl(t[3], b, True)
        elif t[0] == "return": use[b].add(0)
    # borrowed locals stay live while anything may use the borrow: treat them as always live
    borrowed = set()
    for blk in fn.blocks:
        for m in blk["s"]:
            if m[0] == "=" and m[2][0] == "ref" and not any(e[0] == "*" for e in m[2][1][1]):
                borrowed.add(m[2][1][0])
    inn = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for x in fn.succ(b): o |= inn[x]
            i = use[b] | (o - dfn[b])
            if i != inn[b]:
                inn[b] = i
                ch = True
    strict_live[fn.key] = [set(x) for x in inn]
    named = set(fn.locname())
    # ... while they have storage
    managed = {m[1] for blk in fn.blocks for m in blk["s"] if m[0] == "live"}
    sto = [set() for _ in range(n)]
    work = [0]
    seen = {0}
    while work:
        b = work.pop()
        o = set(sto[b])
        for m in fn.blocks[b]["s"]:
            if m[0] == "live": o.add(m[1])
            elif m[0] == "dead": o.discard(m[1])
        for x in fn.succ(b):
            if x not in seen or not o <= sto[x]:
                seen.add(x)
                sto[x] |= o
                work.append(x)
    for b in range(n):
        inn[b] = inn[b] | {x for x in borrowed & named if x not in managed or x in sto[b]}
    _live[fn.key] = (fn, inn)
    return inn
