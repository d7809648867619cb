"""Helpers shared by the rules: running the engine on roots and querying paths."""
import models
from absint import *
from models import some, ok, err, NONE, OPT, RES, SOME0

OK0 = "core::Result@Ok.0"
ERR0 = "core::Result@Err.0"


def run(ctx, cfg, nice, args=None, facts=None, store=None, need=True, **kw):
    """Analyse one function for all inputs. Returns (fn, engine, args, paths) or None."""
    P = ctx.program(cfg)
    fn = P.find(nice) if isinstance(nice, str) else nice
    if fn is None:
        if need: ctx.ob("anchor:%s" % nice, False, nice, "public function %s not found" % nice)
        return None
    e = Engine(P, sync=(cfg == "sync"), **kw)
    a = args if args is not None else e.args_for(fn)
    try:
        ps = e.run(fn, a, facts, store)
    except Inconclusive as x:
        ctx.ob("analysis:%s" % fn.nice, False, fn.where(), "analysis of %s did not terminate within bounds: %s" % (fn.nice, x))
        return None
    ctx.used(e, ps)
    return fn, e, a, ps


def is_ok(v): return v.op == "adt" and v.a[0] == RES and v.a[1] == 0
def is_err(v): return v.op == "adt" and v.a[0] == RES and v.a[1] == 1
def is_some(v): return v.op == "adt" and v.a[0] == OPT and v.a[1] == 1
def is_none(v): return v.op == "adt" and v.a[0] == OPT and v.a[1] == 0
def pay(v, i=0): return v.a[2][i]


def split_result(p, v=None):
    """('ok', payload) / ('err', payload) / ('?', term) of a path's returned Result, using facts for opaque results."""
    v = p.value if v is None else v
    if is_ok(v): return "ok", pay(v)
    if is_err(v): return "err", pay(v)
    d = p.facts.get(mk("discr", v, RES))
    if d == 0: return "ok", mk("fld", v, OK0)
    if d == 1: return "err", mk("fld", v, ERR0)
    return "?", v


def split_option(p, v=None):
    v = p.value if v is None else v
    if is_some(v): return "some", pay(v)
    if is_none(v): return "none", None
    d = p.facts.get(mk("discr", v, OPT))
    if d == 1: return "some", mk("fld", v, SOME0)
    if d == 0: return "none", None
    return "?", v


def same(p, a, b):
    """a and b denote the same value on path p."""
    if a is b: return True
    for x, y in ((a, b), (b, a)):
        if p.facts.get(mk("eq", x, y)) == 1: return True
        k = p.facts.get(("const", x))
        if k is not None and (k is y or p.facts.get(("const", y)) is k): return True
    return False


def differ(p, a, b):
    if a.op == "c" and b.op == "c": return a is not b
    for x, y in ((a, b), (b, a)):
        if p.facts.get(mk("eq", x, y)) == 0: return True
    return False


def mapbase(t):
    while t.op == "upd": t = t.a[0]
    return t


def calls(p, *names):
    return [e for e in p.events if e.kind in ("call", "rec") and e.name in names]


def adt_fields(P, name):
    a = P.adts.get(name)
    return a["variants"] if a else None


def variant_name(P, t):
    """Variant name of a constructor term."""
    if t.op != "adt": return None
    a = P.adts.get(t.a[0])
    return a["variants"][t.a[1]][0] if a else None


def is_lib_panic_guard(p):
    return False


def pub_roots(P, prefix):
    return [f for n, l in sorted(P.bynice.items()) for f in l if f.pub and n.startswith(prefix) and "{closure" not in n]


def vec_desc(paths, v, depth=0):
    """How a Vec term was built: list of ('each', source, method, elem, ok) | ('item', t) | ('unknown', t).
    'each' means: one element per element of the source, unconditionally."""
    if depth > 30: return [("unknown", v)]
    if v.op == "arr": return [("item", x) for x in v.a[0]]
    if v.op == "collect":
        it = v.a[0]
        b = models.iter_base(it)
        clean = it
        okk = True
        while clean.a[0] != "src":
            if clean.a[0] not in ("cloned", "copied", "by_ref", "rev", "peekable", "fuse"): okk = False
            clean = clean.a[1]
        return [("each", b.a[1], b.a[2], None, okk)]
    if v.op == "iter":
        return vec_desc(paths, mk("collect", v), depth + 1)
    if v.op == "upd":
        op = v.a[1]
        rest = vec_desc(paths, v.a[0], depth + 1)
        if op == "push": return rest + [("item", v.a[3][0])]
        if op == "append":
            return rest + vec_desc(paths, v.a[3][0], depth + 1)
        if op == "loop":
            lid = v.a[2]
            outs = []
            for p in paths:
                if p.kind != "loop" or p.info != lid: continue
                # events of this iteration: after the last head event of this loop
                evs = p.events
                idx = max([i for i, e in enumerate(evs) if e.kind == "loop" and (e.ctx, e.extra) == lid] or [0])
                nx = [e for e in evs[idx:] if e.kind == "next"]
                pu = [e for e in evs[idx:] if e.kind == "call" and e.name == "alloc::Vec::push" and contains(e.args[0], v)]
                if not nx: return rest + [("unknown", v)]
                n = nx[0]
                outs.append(("each", n.args[0], n.name, pu[0].args[1] if len(pu) == 1 else None,
                             len(pu) == 1 and bool(n.loops) and n.loops[-1] == lid))
            if not outs: return rest + [("unknown", v)]
            return rest + outs
    return [("unknown", v)]


def field_of(e, P, tyname, obj, fname):
    """Value of field fname of struct value obj."""
    ad = P.adts[tyname]
    for i, f in enumerate(ad["variants"][0][2]):
        if f[0] == fname:
            return e.proj(None, obj, ("f", i, None, "%s.%s" % (tyname, fname)))
    return None


def post(e, p, selfarg):
    """Final value of the object an opaque &mut self argument points to."""
    return p.store.get(("o", selfarg), selfarg)
