"""Two builds of the library do the same: the abstract paths of every function are compared between configurations."""
import hashlib, re
from common import *

LOG = re.compile(r"^(log::|<log::|core::Arguments|core::fmt::|core::Argument)")
LOCKOPS = re.compile(r"^(std::(RwLock|Mutex)::|core::(RefCell|Cell)::(borrow|borrow_mut|replace|set|get|try_)|<(std::(RwLock\w*Guard|MutexGuard)|core::(Ref|RefMut)))")


def opened(t): return t.op == "call" and t.a[0] == "rusqlite::Connection::open_with_flags"


CLONES = re.compile(r"^(<.* as )?(core::)?Clone(<.*>)?>?::clone$|.*::Rc::clone$|.*::Arc::clone$")


LOCALE = False      # whether locales and language identifiers are identified


class Canon:
    """Text of the terms of a path, independent of where in the code they were made and of the kind of sharing."""
    def __init__(s, P): s.P = P; s.ids = {}; s.memo = {}

    def var(s, loc):
        """Name of a place, as far as it does not depend on how the code was compiled."""
        root, path = loc
        if root[0] == "o": return "*" + s.t(root[1]) + s.t(path)
        f = s.P.fns.get(root[0].split("#")[0].split("/")[-1]) if isinstance(root[0], str) else None
        n = f.locname().get(root[1]) if f is not None else None
        return n + s.t(path) if n else None

    def num(s, k):
        return s.ids.setdefault(k, len(s.ids))

    def name(s, n):
        if LOCALE: n = re.sub(r"\bicu_locid::(LanguageIdentifier|Locale)\b|(?<=@)(LanguageIdentifier|Locale)\b", "Lang", n)
        n = re.sub(r"\balloc::Arc\b", "alloc::Rc", n)
        n = re.sub(r"\bstd::RwLock(Read|Write)Guard\b|\bstd::MutexGuard\b|\bcore::RefMut\b|\bcore::Ref\b", "Guard", n)
        n = re.sub(r"\bstd::OnceLock\b", "core::OnceCell", n)
        return re.sub(r"\bstd::(RwLock|Mutex)\b", "core::RefCell", n)

    def t(s, t):
        if not isinstance(t, T):
            if isinstance(t, tuple): return "(" + ",".join(s.t(x) for x in t) + ")"
            return s.name(t) if isinstance(t, str) else str(t)
        r = s.memo.get(t)
        if r is None:
            r = s.term(t)
            # long texts are replaced by what identifies them
            if len(r) > 4000: r = "%s…%s%s" % (r[:300], "log::" if "log::" in r else "", hashlib.sha1(r.encode()).hexdigest())
            s.memo[t] = r
        return r

    def term(s, t):
        o, a = t.op, t.a
        if o == "c": return repr(re.sub(r"\b(LanguageIdentifier|Locale)\b", "Lang", a[1]) if LOCALE and isinstance(a[1], str) else a[1])
        if LOCALE and o == "fld" and a[1] == "icu_locid::Locale.id": return s.t(a[0])
        if o == "iter" and a[0] == "map" and len(a) > 2 and CLONES.match(str(getattr(a[2], "a", ("",))[0])): return "iter(cloned,%s)" % s.t(a[1])
        if LOCALE and o == "call" and s.name(a[0]) == "<Lang as From<Lang>>::from": return s.t(a[1][0])
        if o == "call": return "%s(%s)%s" % (s.name(a[0]), ",".join(map(s.t, a[1])), "" if a[2] is None else "#")
        if o == "hv":
            n = s.var(t.a[1]) if isinstance(t.a[1], tuple) else None
            return "hv<%s>" % n if n else "hv%d" % s.num(t)
        if o == "upd": return "%s+%s(%s)" % (s.t(a[0]), a[1], s.t(a[3]) if a[1] != "loop" else "")
        if o == "eq": return "eq(%s)" % ",".join(sorted(map(s.t, a)))
        if o == "fld" and a[1] == OK0 and opened(a[0]): return s.t(a[0].a[1][0])
        if o == "cell": return "cell(%s)" % s.t(a[1])
        if o == "guard": return "guard(%s)" % s.t(a[1])
        if o == "mapnew": return "{}"
        if o == "lin": return "lin(%s,%s)" % (s.t(a[0]), ",".join(sorted("%s*%s" % (c, s.t(x)) for x, c in a[1])))
        if o in ("elem", "index", "more", "itercell", "clocell"): return "%s(%s)" % (o, ",".join(map(s.t, a[:-1])))
        if o == "ref":
            root, path = a
            if root[0] == "o": return "&%s%s" % (s.t(root[1]), s.t(path))
            return "&local%d%s" % (s.num(root), s.t(path))
        if o == "clo": return "closure(%s)" % s.t(a[1])
        return "%s(%s)" % (o, ",".join(map(s.t, a)))


def nolog(ev): return not LOG.match(ev.name)


PURE = re.compile(r"^(<.* as (BitOr|BitAnd|Add|Sub)<.*>>::|core::str::|core::slice::|std::Path::(display|is_dir|is_file|to_str|file_name|extension|file_stem)|std::DirEntry::path|std::HashMap::(get|contains_key|iter|keys|values|len)|alloc::(Vec|String)::(len|is_empty|as_str|iter))")


def plain_lists(ps):
    """Lists that hold one element for each of others, however they are built: {term: text}, and the loops that build them."""
    texts, lids = {}, set()
    for p in ps:
        if p.kind != "ret" or p.value is None: continue
        for t in subterms(p.value):
            if t in texts or not (t.op == "collect" or (t.op == "upd" and t.a[1] == "loop" and mapbase(t).op == "arr")): continue
            d = vec_desc(ps, t)
            own = {x.a[2] for x in subterms(t) if x.op == "upd" and x.a[1] == "loop"}
            its = [q for q in ps if q.kind == "loop" and q.info in own]
            if any(x[0] != "each" or not x[4] or not (x[3] is None or (x[3].op == "elem" and x[3].a[:2] == (x[1], x[2]))) for x in d): continue
            if any(len([e for e in q.events[max(i for i, e in enumerate(q.events) if e.kind == "loop") if any(e.kind == "loop" for e in q.events) else 0:] if e.kind in ("call", "rec") and not PURE.match(e.name) and e.name != "alloc::Vec::push"]) for q in its): continue
            texts[t] = d
            lids |= own
    return texts, lids


FAILED = re.compile(r"unwrap|expect|index|bounds|unreachable|explicit", re.I)


def render(P, p, a, lists={}):
    """What is observable of a path: how it ends, what it depended on, what it did and returned; None when it only exists in one kind of build."""
    c = Canon(P)
    for t, d in lists.items(): c.memo[t] = "list[%s]" % ",".join("%s.%s" % (c.t(x[1]), x[2]) for x in d)
    facts = []
    for k, v in p.facts.items():
        if isinstance(k, T) and k.op == "discr" and opened(k.a[0]):
            if v == 1: return None
            continue
        x = "%s=%s" % (c.t(k), c.t(v))
        if "log::" in x: continue
        facts.append(x)
    evs = []
    for ev in p.events:
        if ev.kind not in ("call", "rec"): continue
        if LOCALE and c.name(ev.name) == "<Lang as From<Lang>>::from": continue
        if LOG.match(ev.name) or LOCKOPS.match(ev.name) or PURE.match(ev.name) or ev.name == "rusqlite::Connection::open_with_flags": continue
        evs.append((c.name(ev.name), "%s(%s)" % (c.name(ev.name), ",".join(map(c.t, ev.args)))))
    eff = []
    for root, v in p.store.items():
        if root[0] == "o" and root[1].op in ("inner", "arg", "fld"): eff.append("%s:=%s" % (c.t(root[1]), c.t(v)))
    # how a failed unwrap or index is worded is of no importance
    what = c.t(p.info[0]) if p.kind == "panic" and not FAILED.search(str(p.info[0])) else ""
    return (p.kind, tuple(evs), c.t(p.value) if p.value is not None else what, tuple(sorted(eff))), frozenset(facts)


# conversions between types are looked into
WRAPS = re.compile(r" as (core::)?(From|Into)<.*>>::(from|into)$")


def functions(P):
    return {n: l for n, l in P.bynice.items() if len(l) == 1 and l[0].kind == "fn" and not l[0].derived and not n.startswith("synthetic") and "{closure" not in n}


def paths_of(ctx, P, fn, both):
    """{outcome: [sets of facts]} and where each is reached; None when the function cannot be analysed."""
    e = Engine(P, sync=False, opaque=[x for x in both if x != fn.nice and not WRAPS.search(x)])
    a = e.args_for(fn)
    try: ps = e.run(fn, a)
    except Inconclusive: return None
    ctx.used(e, ps)
    out = {}
    lists, lids = plain_lists(ps)
    for p in ps:
        if p.kind == "loop" and p.info in lids: continue
        r = render(P, p, a, lists)
        if r is not None: out.setdefault(r[0], {})[r[1]] = p.events[-1].where() if p.events else fn.where()
    return out


def quiet_functions(results):
    """Functions that only look at what they are given and always return: calling them has no effect."""
    q = set()
    while True:
        new = {n for n, rs in results.items() if n not in q and all(r is not None and all(o[0] == "ret" and not o[3] and all(name in q for name, _ in o[1]) for o in r) for r in rs)}
        if not new: return q
        q |= new


def strip(r, quiet):
    out = {}
    for o, fs in r.items(): out.setdefault((o[0], tuple(t for n, t in o[1] if n not in quiet), o[2], o[3]), {}).update(fs)
    return out


def compare(ctx, A, B, what):
    PA, PB = ctx.program(A), ctx.program(B)
    FA, FB = functions(PA), functions(PB)
    both = {n for n in FA if n in FB}
    ctx.notes["functions_compared"] = ctx.notes.get("functions_compared", 0) + len(both)
    results = {n: (paths_of(ctx, PA, FA[n][0], both), paths_of(ctx, PB, FB[n][0], both)) for n in sorted(both)}
    quiet = quiet_functions(results)
    for n, (x, y) in results.items():
        fa, fb = FA[n][0], FB[n][0]
        if x is None or y is None:
            ctx.ob("%s:%s" % (what, n), (x is None) == (y is None), fa.where(), "%s is only understood in one of the builds %s and %s" % (n, A, B))
            continue
        bad, opened = mismatch(ctx, what, n, strip(x, quiet), strip(y, quiet), A, B), {n}
        while bad:
            # one of the builds may call a function where the other does the same itself
            more = (calls(x) ^ calls(y)) & both - opened
            if not more or len(opened) > 12: break
            opened |= more
            x, y = (paths_of(ctx, P, f, both - opened) for P, f in ((PA, fa), (PB, fb)))
            if x is None or y is None: break
            if not mismatch(ctx, what, n, strip(x, quiet), strip(y, quiet), A, B): bad = None
        if bad:
            o, where, build = bad
            ctx.ob("%s:%s" % (what, n), False, where, "%s: only in the build %s there is a path that %s %s, having done [%s] and changed [%s]" % (
                n, build, {"ret": "returns", "panic": "panics:", "loop": "goes on"}.get(o[0], o[0]), o[2][:300], "; ".join(q[:200] for q in o[1][-3:]), "; ".join(q[:300] for q in o[3])))


NAME = re.compile(r"(i18n_\w+(?:::\w+)+)\(")


def calls(r):
    """The names of the functions that are called, and of those whose results are used."""
    return {name for o in r for name, _ in o[1]} | {w for o, fs in r.items() for t in [o[2], *(q for _, q in o[1]), *(q for f in fs for q in f)] for w in NAME.findall(t)}


def mismatch(ctx, what, n, x, y, A, B):
    """A path of one build that the other has not."""
    bad = None
    for l, r, build in ((x, y, A), (y, x, B)):
        for o, fs in l.items():
            there = r.get(o, {})
            for f, where in fs.items():
                ctx.ob("%s:%s" % (what, n), True, where)
                if not (f in there or any(f <= g or g <= f for g in there)): bad = bad or (o, where, build)
    return bad


def c40(ctx):
    pairs = [("icu", "full")] + ([("default", "log"), ("sync", "synclog")] if ctx.tier != "quick" else [])
    for a, b in pairs: compare(ctx, a, b, "logging" if len(pairs) == 1 else b)


def c41(ctx):
    pairs = [("icu", "sync")] + ([("full", "synclog")] if ctx.tier != "quick" else [])
    for a, b in pairs: compare(ctx, a, b, "sync" if len(pairs) == 1 else b)


def c44(ctx):
    global LOCALE
    LOCALE = True
    compare(ctx, "icu", "ext", "extended")
