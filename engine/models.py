"""Abstract semantics of library functions (everything outside the workspace)."""
import re
from absint import *

OPT = "core::Option"
RES = "core::Result"
NONE = mk("adt", OPT, 0, ())


def some(x): return mk("adt", OPT, 1, (x,))
def ok(x): return mk("adt", RES, 0, (x,))
def err(x): return mk("adt", RES, 1, (x,))


TRANSPARENT = re.compile(r"""^(
  alloc::String::(as_str|into_bytes|as_bytes|into_boxed_str)
 |core::str::(as_bytes|as_str|to_string|to_owned|as_ptr)
 |alloc::str::(to_owned|to_string|into_string|into_boxed_str)
 |<str\ as\ ToOwned>::to_owned |<\$T\ as\ ToOwned>::to_owned |<alloc::String\ as\ ToOwned>::to_owned
 |<(alloc::String|alloc::Rc|alloc::Arc|alloc::Box|alloc::Vec|std::PathBuf|alloc::Cow|core::Ref|rusqlite::CachedStatement|std::LazyLock|std::OsString)\ as\ (Deref|DerefMut|AsRef<.*>|AsMut<.*>|Borrow<.*>|BorrowMut<.*>)>::\w+
 |<.*\ as\ AsRef<.*>>::as_ref
 |<.*\ as\ AsMut<.*>>::as_mut
 |<.*\ as\ Borrow<.*>>::borrow
 |(alloc::Rc|alloc::Arc|alloc::Box)::(new|pin|from)
 |alloc::Vec::(as_slice|as_mut_slice|into_boxed_slice)
 |alloc::slice::(to_vec|into_vec|to_owned)
 |<\$T\ as\ From<\$T>>::from
 |<alloc::String\ as\ From<.*>>::from
 |<alloc::(Rc|Arc|Box|Vec|Cow)\ as\ From<.*>>::from
 |<alloc::Cow\ as\ .*>::(into_owned|deref)|alloc::Cow::(into_owned|to_mut)
 |core::Option::(as_ref|cloned|copied|as_deref|as_slice)
 |core::Result::(as_ref|cloned|copied|as_deref)
 |std::Path::(to_path_buf|as_os_str|new|as_path)|std::PathBuf::(as_path|from)
 |core::hint::(black_box|must_use)|core::convert::identity
 |alloc::Rc::as_ref
 |core::Iter::as_slice
)$""", re.X)

MUTREF_SAME = re.compile(r"""^(
  <(alloc::Vec|alloc::String|alloc::Box|rusqlite::CachedStatement)\ as\ (DerefMut|AsMut<.*>|BorrowMut<.*>)>::\w+
 |alloc::Vec::as_mut_slice|core::Option::as_mut
)$""", re.X)

# deterministic functions of their (versioned) arguments
PURE = re.compile(r"""^(
  core::str::(len|is_empty|chars|starts_with|ends_with|contains|find|rfind|trim.*|split.*|rsplit.*|get|eq_ignore_ascii_case|to_lowercase|to_uppercase|parse|char_indices|match_indices|bytes|strip_prefix|strip_suffix|to_ascii_lowercase|to_ascii_uppercase|is_char_boundary)
 |alloc::str::(to_lowercase|to_uppercase|replace|repeat|replacen|to_ascii_lowercase)
 |alloc::String::(len|is_empty|capacity)
 |alloc::Vec::(len|is_empty)
 |core::slice::(len|is_empty|first|last|get|contains|starts_with)
 |std::HashMap::(len|is_empty)
 |std::Path::(is_dir|is_file|exists|extension|file_stem|file_name|parent|display|join|to_str)
 |std::OsStr::to_str
 |<.*\ as\ (PartialEq|Eq|PartialOrd|Ord|Hash|FromStr|Display)(<.*>)?>::\w+
 |core::char::\w+|core::(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f64)::\w+
 |icu_locid::\w+::\w+
 |icu_properties::CodePointSetDataBorrowed::contains
 |icu_properties::CodePointSetData::(as_borrowed|contains)
 |<\$T\ as\ ToString>::to_string
)$""", re.X)

PANICS = re.compile(r"(core::panicking::|core::option::(unwrap_failed|expect_failed)|core::result::unwrap_failed|std::rt::begin_panic|core::slice::index|core::str::slice_error|core::cell::panic|std::rt::panic_|core::panicking)")

ITER_SRC = re.compile(r"^(core::slice::(iter|iter_mut|chunks|windows)|<.* as IntoIterator>::into_iter|std::HashMap::(iter|iter_mut|keys|values|values_mut|into_iter|into_values|drain)|core::str::(chars|char_indices|bytes|split|rsplit|lines|split_whitespace|splitn|rsplitn|split_terminator|match_indices|matches|split_inclusive)|alloc::Vec::drain|std::(BTreeMap|HashSet|BTreeSet)::(iter|keys|values))$")
ITER_NEXT = re.compile(r"^(<.* as Iterator>::next|core::Iterator::next|<.* as DoubleEndedIterator>::next_back)$")
ITER_ADAPT = re.compile(r"^core::Iterator::(enumerate|skip|rev|map|filter|filter_map|peekable|take|take_while|skip_while|zip|chain|cloned|copied|by_ref|fuse|inspect|flat_map|step_by)$")


def isiter(v): return v.op == "iter"


def val(c, v):
    """Follow references to the referenced value (shallow)."""
    while v.op == "ref":
        v = c.e.rd(c.st, v.a[0], v.a[1])
    return v


def pure(c, name, args):
    return mk("call", name, args, None)


def bump(c, st, i, op, args):
    """Argument i (a &mut) was mutated by op: new version of the referenced object."""
    v = c.args[i]
    if v.op == "ref":
        root, path = v.a
    else:
        root, path = ("o", v), ()
    old = c.e.rd(st, root, path)
    hops = 0
    while old.op == "ref" and hops < 20:
        root, path = old.a
        old = c.e.rd(st, root, path)
        hops += 1
    if old.op == "iter": return
    old = c.e.freeze(st, old)
    c.e.wr(st, root, path, mk("upd", old, op, c.site, args))


def mapget(c, m, k):
    """Abstract HashMap lookup on versioned map term m."""
    x = m
    while True:
        if x.op == "upd":
            op = x.a[1]
            if op == "insert":
                k2, v2 = x.a[3]
                if k2 is k: return some(v2)
                if k2.op == "c" and k.op == "c":
                    x = x.a[0]
                    continue
            elif op in ("innermut",):
                x = x.a[0]
                continue
            return pure(c, "map.get", (x, k))
        if x.op == "mapnew": return NONE
        return pure(c, "map.get", (x, k))


def payload(c, st, v, adt, variant, label):
    if v.op == "adt":
        return v.a[2][0]
    return mk("fld", v, label)


SOME0 = "core::Option@Some.0"


def split_opt(c, v):
    """States for Option-valued term v: [(state, is_some)]"""
    if v.op == "adt": return [(c.st, v.a[1] == 1)]
    d = mk("discr", v, OPT)
    kn = c.e.fact(c.st, d)
    if kn is not None: return [(c.st, kn == 1)]
    a = c.st.fork()
    b = c.st.fork()
    r = []
    if c.e.setfact(a, d, 1): r.append((a, True))
    if c.e.setfact(b, d, 0): r.append((b, False))
    return r


def elem_of(c, it):
    """Element term of an abstract iterator (no closure application)."""
    kind = it.a[0]
    if kind == "src": return mk("elem", it.a[1], it.a[2], c.site)
    if kind == "enumerate":
        x = elem_of(c, it.a[1])
        return mk("tup", (mk("index", it.a[1], c.site), x)) if x is not None else None
    if kind in ("skip", "rev", "peekable", "take", "cloned", "copied", "by_ref", "fuse", "step_by"): return elem_of(c, it.a[1])
    if kind == "zip":
        x, y = elem_of(c, it.a[1]), elem_of(c, it.a[2])
        return mk("tup", (x, y)) if x is not None and y is not None else None
    return None


def iter_base(it):
    while it.a[0] != "src": it = it.a[1]
    return it


def dispatch(c):
    e, st = c.e, c.st
    f = c.f
    name = c.name
    d = c.defname
    # --- closures and function values
    if d in ("core::FnOnce::call_once", "core::FnMut::call_mut", "core::Fn::call") or c.f.op != "fn":
        if c.f.op == "fn":
            tgt = val(c, c.args[0])
            tup = val(c, c.args[1]) if len(c.args) > 1 else UNIT
            sp = list(tup.a[0]) if tup.op == "tup" else [tup]
            selfarg = c.args[0]
        else:
            tgt = val(c, c.f)
            sp = list(c.args)
            selfarg = c.f
        return apply(c, tgt, selfarg, sp)
    if name in e.extra_models:
        r = e.extra_models[name](c)
        if r is not NotImplemented: return r
    if d in e.extra_models:
        r = e.extra_models[d](c)
        if r is not NotImplemented: return r
    if c.cal["kind"] == "ctor":
        return c.deliver(st, mk("adt", c.cal["res"], int(c.cal["key"]), tuple(c.args)))
    if d == "synthetic::push":
        return vec_push(c)
    if d == "synthetic::push_text":
        a, b = c.fz()
        if b.op == "c" and isinstance(b.a[1], int) or b.op == "elem" and any(y.op == "call" and y.a[0].endswith("str::chars") for y in subterms(b)): b = chrterm(b)
        c.event(st, "call", "alloc::String::push_str", (a, b), None)
        setmut(c, 0, concat(a, b))
        return c.deliver(st, UNIT)
    if d == "synthetic::map_new": return c.deliver(st, mk("mapnew", c.site))
    if d == "synthetic::map_put":
        x = c.fz(1)
        k, v = (e.proj(st, x, ("f", i, None, "tuple.%d" % i)) for i in (0, 1))
        m = c.fz(0)
        c.event(st, "call", "std::HashMap::insert", (m, k, v), mapget(c, m, k))
        bump(c, st, 0, "insert", (k, v))
        return c.deliver(st, UNIT)
    if d == "synthetic::entry_get":
        ent = val(c, c.args[0])
        g = mapget(c, ent.a[0], ent.a[1])
        return c.fork_deliver([(s2, some(mk("ref", ("o", g.a[2][0] if g.op == "adt" else mk("fld", g, SOME0)), ())) if y else NONE) for s2, y in split_opt(c, g)])
    if d == "synthetic::entry_insert":
        ent = val(c, c.args[0])
        v = c.fz(1)
        m, k, ref = ent.a[:3]
        e.ev(st, Ev("call", "std::HashMap::insert", (m, k, v), NONE, c.fr.fn, c.line, c.fr.id, None, e.loopctx(st)))
        e.wr(st, ref.a[0], ref.a[1], mk("upd", m, "insert", c.site, (k, v)))
        return c.deliver(st, mk("ref", ("o", v), ()))
    if d == "synthetic::index_of":
        it = val(c, c.args[0])
        return c.deliver(st, mk("index", e.freeze(st, it), c.site))
    # --- opaque boundaries requested by the rule
    if name in e.opaque or d in e.opaque:
        return generic(c)
    if d == "core::Clone::clone":
        g = e.P.fns.get(c.cal["key"])
        if g is None or g.derived or g.kind == "ext":
            return c.deliver(st, c.fz(0))
    if d in ("core::Deref::deref", "core::DerefMut::deref_mut"):
        g = val(c, c.args[0])
        if g.op == "guard":
            return c.deliver(st, mk("ref", ("o", mk("inner", g.a[1])), ()))
    if MUTREF_SAME.match(name):
        if name.endswith("as_mut") and name.startswith("core::Option"):
            return opt_as_mut(c)
        return c.deliver(st, c.args[0])
    if name.startswith("<alloc::String as From<char>>"): return c.deliver(st, chrterm(c.fz(0)))
    if TRANSPARENT.match(name):
        a = c.args[0]
        if name.endswith(("::new", "::from")) or name.startswith("<alloc::") and "From" in name:
            return c.deliver(st, a if a.op != "ref" else e.freeze(st, a))
        if c.destty()[0] == "ref": return c.deliver(st, a)
        return c.deliver(st, e.freeze(st, a))
    if d == "alloc::ToString::to_string":
        tn = c.targstr(0)
        if tn in ("str", "alloc::String", "&str", "&alloc::String", "alloc::Cow<str>", "&&str"):
            return c.deliver(st, c.fz(0))
        if tn in ("char", "&char"): return c.deliver(st, chrterm(c.fz(0)))
        return c.deliver(st, pure(c, "to_string", (c.fz(0), mk("ty", tn))))
    if d in ("core::From::from", "core::Into::into") and c.desttystr().startswith(MAPTY) and known_items(val(c, c.args[0])):
        return c.deliver(st, map_of(c, st, known_items(val(c, c.args[0]))))
    if d in ("core::Into::into", "core::From::from", "core::TryInto::try_into") and e.P.fns.get(c.cal["key"]) is None:
        if d == "core::TryInto::try_into": return generic(c)
        tn = [e.P.tystr(c.types, x) for x in c.cal["targs"]]
        if d == "core::From::from" or len(tn) < 2: return c.deliver(st, pure(c, name, c.fz())) if d == "core::From::from" else c.deliver(st, c.fz(0))
        return c.deliver(st, c.fz(0))
    # --- new collections
    if re.match(r"^(std|alloc)::(HashMap|HashSet|BTreeMap|BTreeSet)::(new|with_capacity)$", name) or (d == "core::Default::default" and re.match(r"^(std|alloc)::(HashMap|HashSet|BTreeMap|BTreeSet)<", c.desttystr())):
        return c.deliver(st, mk("mapnew", c.site))
    if name in ("alloc::Vec::new", "alloc::Vec::with_capacity"):
        return c.deliver(st, mk("arr", ()))
    if name in ("alloc::String::new", "alloc::String::with_capacity"):
        return c.deliver(st, cstr(""))
    if name == "alloc::Box::new_uninit": return c.deliver(st, mk("ucell", c.site))
    if name == "alloc::boxed::box_assume_init_into_vec_unsafe":
        v = c.args[0]
        return c.deliver(st, st.store.get(("o", v), v))
    if name == "alloc::Vec::push":
        return vec_push(c)
    if name in ("alloc::Vec::append", "alloc::Vec::extend_from_slice") or (d == "core::Extend::extend" and "alloc::Vec<" in c.argtystr(0)):
        a, b = c.fz()
        if isiter(val(c, c.args[1])) and elem_of(c, val(c, c.args[1])) is None:
            # mapped/filtered source: analyse as a loop of pushes
            ir = ("o", mk("itercell", val(c, c.args[1]), c.site))
            st.store[ir] = val(c, c.args[1])
            fn = e.P.fns.get("synthetic::extend")
            if fn is not None: return e.do_inline(c, fn, [mk("ref", ir, ()), c.args[0]])
        if b.op == "arr" and b.a[0] and len(b.a[0]) <= 8:
            for x in b.a[0]:
                c.event(st, "call", "alloc::Vec::push", (c.fz(0), x), None)
                bump(c, st, 0, "push", (x,))
            if name.endswith("append"): setmut(c, 1, mk("arr", ()))
            return c.deliver(st, UNIT)
        c.event(st, "call", name, (a, b), None)
        bump(c, st, 0, "append", (b,))
        if name.endswith("append"): setmut(c, 1, mk("arr", ()))
        return c.deliver(st, UNIT)
    if d == "core::Extend::extend" and "std::HashMap<" in c.argtystr(0) and known_items(val(c, c.args[1])):
        map_insert(c, st, 0, known_items(val(c, c.args[1])))
        return c.deliver(st, UNIT)
    if d == "core::Extend::extend" and "std::HashMap<" in c.argtystr(0) and isiter(val(c, c.args[1])):
        ir = ("o", mk("itercell", val(c, c.args[1]), c.site))
        st.store[ir] = val(c, c.args[1])
        return e.do_inline(c, e.P.fns["synthetic::extend_map"], [mk("ref", ir, ()), c.args[0]])
    if d == "core::Extend::extend" and "alloc::String" in c.argtystr(0) and isiter(val(c, c.args[1])):
        ir = ("o", mk("itercell", val(c, c.args[1]), c.site))
        st.store[ir] = val(c, c.args[1])
        return e.do_inline(c, e.P.fns["synthetic::extend_str"], [mk("ref", ir, ()), c.args[0]])
    # --- locks
    m = LOCKS.get(name)
    if m: return lock(c, m)
    if name in ("core::RefCell::replace", "core::Cell::replace", "core::Cell::set", "core::Cell::get", "core::RefCell::take", "core::RefCell::swap", "core::RefCell::into_inner"):
        r = cell_op(c)
        if r is not None: return r
    if name in ("core::RefCell::new", "std::Mutex::new", "std::RwLock::new", "core::Cell::new", "core::OnceCell::new", "std::OnceLock::new"):
        return c.deliver(st, mk("cell", name, c.fz(0) if c.args else UNIT, c.site))
    # --- maps
    if name in ("std::HashMap::get", "std::HashMap::get_mut", "std::HashMap::contains_key", "std::HashMap::get_key_value"):
        mm, k = c.fz(0), c.fz(1)
        g = mapget(c, mm, k)
        c.event(st, "call", name, (mm, k), g)
        if name.endswith("contains_key"):
            return c.fork_deliver([(s2, TRUE if y else FALSE) for s2, y in split_opt(c, g)])
        if name.endswith("get_mut") and g.op != "adt":
            outs = []
            for s2, y in split_opt(c, g):
                outs.append((s2, some(mk("ref", ("o", mk("fld", g, SOME0)), ())) if y else NONE))
            return c.fork_deliver(outs)
        return c.deliver(st, g)
    m = re.match(r"^(std|alloc)::(BTreeMap|HashSet|BTreeSet)::(get|get_mut|contains_key|insert|contains|entry|get_key_value)$", name)
    if m and m.group(2) == "BTreeMap":
        c.name = name = "std::HashMap::" + m.group(3)
        if name.endswith("::entry"): return NotImplemented
        if not name.endswith("insert"):
            mm, k = c.fz(0), c.fz(1)
            g = mapget(c, mm, k)
            c.event(st, "call", name, (mm, k), g)
            if name.endswith("contains_key"): return c.fork_deliver([(s2, TRUE if y else FALSE) for s2, y in split_opt(c, g)])
            if name.endswith("get_mut") and g.op != "adt":
                return c.fork_deliver([(s2, some(mk("ref", ("o", mk("fld", g, SOME0)), ())) if y else NONE) for s2, y in split_opt(c, g)])
            return c.deliver(st, g)
    elif m and m.group(3) in ("contains", "insert", "get"):
        mm, k = c.fz(0), c.fz(1)
        g = mapget(c, mm, k)
        c.event(st, "call", name, (mm, k), g)
        if m.group(3) == "get": return c.fork_deliver([(s2, some(k) if y else NONE) for s2, y in split_opt(c, g)])
        outs = []
        for s2, y in split_opt(c, g):
            if m.group(3) == "insert" and not y:
                bump(c, s2, 0, "insert", (k, UNIT))
            outs.append((s2, TRUE if y == (m.group(3) == "contains") else FALSE))
        return c.fork_deliver(outs)
    if name == "std::HashMap::insert":
        mm, k, v = c.fz()
        g = mapget(c, mm, k)
        c.event(st, "call", name, (mm, k, v), g)
        bump(c, st, 0, "insert", (k, v))
        return c.deliver(st, g)
    if name == "std::HashMap::entry":
        mm, k = c.fz()
        c.event(st, "call", name, (mm, k), None)
        return c.deliver(st, mk("entry", mm, k, c.args[0] if c.args[0].op == "ref" else mk("ref", ("o", c.args[0]), ()), c.site, mapget(c, mm, k)))
    if d.startswith("std::Entry::") and name.split("::")[-1] in ("or_default", "or_insert", "or_insert_with", "and_modify"):
        return entry_or(c)
    if re.match(r"std::(VacantEntry|OccupiedEntry)::(insert|into_mut|get|get_mut|insert_entry|key|into_key|remove|remove_entry)$", name):
        return entry_op(c)
    # --- iterators
    if name == "<$I as IntoIterator>::into_iter":
        return c.deliver(st, val(c, c.args[0]) if isiter(val(c, c.args[0])) else mk("iter", "src", c.fz(0), "into_iter"))
    if ITER_SRC.match(name) or (d == "core::IntoIterator::into_iter"):
        a = val(c, c.args[0])
        if isiter(a): return c.deliver(st, a)
        if a.op == "collect" and len(c.args) == 1 and name.split("::")[-1] in ("into_iter", "iter"): return c.deliver(st, a.a[0])
        src = c.fz(0) if len(c.args) == 1 else mk("call", name, c.fz(), None)
        c.event(st, "call", name, c.fz(), None)
        return c.deliver(st, mk("iter", "src", src, name.split("::")[-1]))
    if ITER_ADAPT.match(d):
        a = val(c, c.args[0])
        k = d.split("::")[-1]
        if not isiter(a): a = mk("iter", "src", e.freeze(st, a), "opaque")
        return c.deliver(st, mk("iter", k, a, *c.args[1:]))
    if ITER_NEXT.match(name) or d == "core::Iterator::next":
        g = e.P.fns.get(c.cal["key"])
        if g is None or g.kind not in ("fn",):
            return iter_next(c)
    if d.startswith("core::Iterator::") or d == "core::FromIterator::from_iter":
        r = iter_consume(c)
        if r is not NotImplemented: return r
    # --- string building
    if name in ("alloc::String::push_str", "alloc::String::push"):
        a, b = c.fz()
        c.event(st, "call", name, (a, b), None)
        setmut(c, 0, concat(a, b if name.endswith("push_str") else chrterm(b)))
        return c.deliver(st, UNIT)
    if d in ("core::Add::add", "core::AddAssign::add_assign") and "alloc::String" in c.argtystr(0):
        a, b = c.fz()
        if d.endswith("add_assign"):
            setmut(c, 0, concat(a, b))
            return c.deliver(st, UNIT)
        return c.deliver(st, concat(a, b))
    if re.match(r"^core::(fmt::rt::)?Argument::new_\w+$", name) or re.match(r"^core::Argument::new_\w+$", name):
        return c.deliver(st, mk("fmtarg", name.split("::")[-1], c.fz(0), mk("ty", c.targstr(0) if c.cal["targs"] else "")))
    if name == "core::Arguments::new":
        return c.deliver(st, decode_fmt(c))
    if name in ("core::Arguments::from_str", "core::Arguments::from_str_nonconst", "core::Arguments::new_const"):
        return c.deliver(st, c.fz(0))
    if name in ("alloc::fmt::format", "alloc::fmt::format::format_inner") or name.endswith("fmt::format"):
        return c.deliver(st, c.fz(0))
    # --- equality
    if d in ("core::PartialEq::eq", "core::PartialEq::ne"):
        g = e.P.fns.get(c.cal["key"])
        if g is None or g.derived or g.kind == "ext":
            t = equal(c, c.fz(0), c.fz(1))
            if d.endswith("ne"): t = cint(1 - t.a[1]) if t.op == "c" else (t.a[0] if t.op == "not" else mk("not", t))
            return c.deliver(st, t)
    if name in ("core::str::len", "alloc::String::len", "alloc::Vec::len", "core::slice::len"):
        return c.deliver(st, e.length(st, c.fz(0)))
    if name in ("core::str::is_empty", "alloc::String::is_empty", "alloc::Vec::is_empty", "core::slice::is_empty"):
        v = c.fz(0)
        l = e.length(st, v)
        if l.op == "c": return c.deliver(st, cint(int(l.a[1] == 0)))
        return c.deliver(st, mk("eq", l, cint(0)))
    if name in ("<alloc::Vec as Index<$I>>::index", "<slice as Index<$I>>::index", "<str as Index<$I>>::index", "<alloc::String as Index<$I>>::index") or d in ("core::Index::index", "core::IndexMut::index_mut"):
        return index(c)
    if name == "core::mem::replace" or name == "core::mem::take":
        old = val(c, c.args[0])
        setmut(c, 0, c.args[1] if len(c.args) > 1 else default_of(c, c.desttystr()))
        return c.deliver(st, e.freeze(st, old))
    if name == "core::Option::take":
        old = val(c, c.args[0])
        setmut(c, 0, NONE)
        return c.deliver(st, e.freeze(st, old))
    if name in ("<std::PathBuf as FromStr>::from_str", "<alloc::String as FromStr>::from_str"):
        return c.deliver(st, ok(c.fz(0)))  # infallible
    if name in ("core::slice::first", "core::slice::last", "core::slice::get", "alloc::Vec::first", "alloc::Vec::last", "core::slice::first_mut", "core::slice::last_mut", "core::slice::get_mut"):
        r = slice_get(c)
        if r is not None: return r
    if name in ("core::slice::contains",):
        a, b = c.fz()
        if a.op == "arr" and a.a[0] and all(x.op == "c" for x in a.a[0]):
            outs = []
            for x in a.a[0]:
                n = st.fork()
                if e.setfact(n, e.eqterm(b, x), 1): outs.append((n, TRUE))
            n = st.fork()
            if all(e.setfact(n, e.eqterm(b, x), 0) for x in a.a[0]): outs.append((n, FALSE))
            return c.fork_deliver(outs)
    if name == "core::mem::drop":
        c.event(st, "drop", c.argtystr(0), (c.fz(0),), None)
        return c.deliver(st, UNIT)
    if name in POSITION: may_panic(c)
    if name == "alloc::String::truncate":
        # the text up to a position in it; a position beyond the end changes nothing
        v, i = c.fz(0), c.fz(1)
        if boundary(c, v, i, True):
            c.event(st, "call", name, (v, i), UNIT)
            setmut(c, 0, mk("slice", v, mk("adt", "core::RangeTo", 0, (i,))))
            return c.deliver(st, UNIT)
    if PANICS.search(name) or (c.target is None and c.desttystr() == "never"):
        e.panic(st, c.fr, c.line, "panic " + short(name), c.fz())
        return False
    # --- workspace or small library bodies
    fn = e.P.fns.get(c.cal["key"]) if c.cal["kind"] != "virtual" else None
    if fn is not None and fn.kind in ("fn", "ext"):
        depth = len(st.frames)
        rec = sum(1 for x in st.frames if x.fn.key == fn.key)
        if fn.kind == "fn" and rec > (e.recurse(fn) if callable(e.recurse) else e.recurse): return generic(c, recursive=True)
        if depth > e.max_depth + 10: return generic(c)
        return e.do_inline(c, fn, list(c.args))
    if PURE.match(name) and not any(c.argty(i)[0] == "ref" and c.argty(i)[2] for i in range(len(c.args))):
        args = c.fz()
        r = pure(c, name, args)
        c.event(st, "call", name, args, r)
        return c.deliver(st, r)
    return generic(c)


def apply(c, tgt, selfarg, sp):
    e, st = c.e, c.st
    if tgt.op == "clo":
        fn = e.P.fns.get(tgt.a[0])
        if fn is None: return generic(c)
        return e.do_inline(c, fn, [selfarg] + sp)
    if tgt.op == "fn":
        t = list(c.t)
        c2 = Call(e, st, c.fr, tgt, sp, t, c.line, c.site)
        # argument types of the callee are unknown here: reuse the closure call's
        n = len(sp)
        c2.t = list(c.t)
        c2.t[5] = (c.t[5] * (n + 1))[:max(n, 1)]
        return dispatch(c2)
    args = tuple(e.freeze(st, x) for x in [selfarg] + sp)
    r = mk("call", "<indirect>", args, c.site)
    c.event(st, "call", "<indirect>", args, r)
    return c.deliver(st, r)


def generic(c, recursive=False):
    e, st = c.e, c.st
    args = c.fz()
    if c.target is None:
        e.panic(st, c.fr, c.line, "diverges " + short(c.name), args)
        return False
    r = UNIT if c.desttystr() == "()" else mk("call", c.name, args, c.site)
    c.event(st, "rec" if recursive else "call", c.name, args, r)
    for i in range(len(c.args)):
        t = c.argty(i)
        if t[0] == "ref" and t[2]:
            bump(c, st, i, c.name, args)
    e.unmodelled[c.name] = e.unmodelled.get(c.name, 0) + 1
    return c.deliver(st, r)


def chrterm(b):
    return cstr(chr(b.a[1])) if b.op == "c" else mk("chr", b)


def setmut(c, i, v, st=None):
    st = st or c.st
    a = c.args[i]
    root, path = a.a if a.op == "ref" else (("o", a), ())
    old = c.e.rd(st, root, path)
    n = 0
    while old.op == "ref" and n < 20:
        root, path = old.a
        old = c.e.rd(st, root, path)
        n += 1
    c.e.wr(st, root, path, v)


def concat(a, b):
    xs = []
    for t in (a, b):
        if t.op == "cat": xs += list(t.a[0])
        else: xs.append(t)
    r = []
    for t in xs:
        if t.op == "c" and t.a[0] == "str":
            if t.a[1] == "": continue
            if r and r[-1].op == "c" and r[-1].a[0] == "str":
                r[-1] = cstr(r[-1].a[1] + t.a[1])
                continue
        r.append(t)
    if not r: return cstr("")
    if len(r) == 1: return r[0]
    return mk("cat", tuple(r))


def decode_fmt(c):
    tpl, args = c.fz(0), c.fz(1)
    if tpl.op == "c" and tpl.a[0] == "bytes" and args.op == "arr":
        b = bytes(tpl.a[1])
        i = 0
        n = 0
        parts = []
        while i < len(b):
            x = b[i]
            i += 1
            if x == 0: break
            if x < 0x80:
                parts.append(cstr(b[i:i + x].decode("utf8", "replace")))
                i += x
            elif x == 0x80:
                l = b[i] | b[i + 1] << 8
                i += 2
                parts.append(cstr(b[i:i + l].decode("utf8", "replace")))
                i += l
            else:
                if x & 1: i += 4
                if x & 2: i += 2
                if x & 4: i += 2
                if x & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                if n < len(args.a[0]): parts.append(disp(args.a[0][n], plain=(x == 0xC0 or x == 0xC8)))
                else: parts.append(mk("fmt?"))
                n += 1
        r = cstr("")
        for p in parts: r = concat(r, p)
        return r
    return mk("fmt", tpl, args)


def disp(fa, plain=True):
    if fa.op == "fmtarg":
        kind, v, ty = fa.a
        tn = ty.a[0].lstrip("&")
        if plain and kind == "new_display" and tn == "char": return chrterm(v)
        if plain and kind == "new_display" and tn in ("str", "alloc::String", "alloc::Cow<str>"): return v
        return mk("to_string", kind, v, ty, plain)
    return mk("to_string", "?", fa, mk("ty", "?"), plain)


def equal(c, a, b):
    e = c.e
    if a is b and a.op not in ("c",): return TRUE
    if a.op == "c" and b.op == "c": return cint(int(a.a[1] == b.a[1]))
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]: return FALSE
        if not a.a[2]: return TRUE
        if len(a.a[2]) == 1: return equal(c, a.a[2][0], b.a[2][0])
    for x, y in ((a, b), (b, a)):
        if y.op == "adt" and not y.a[2] and x.op != "adt":
            ad = e.P.adts.get(y.a[0])
            if ad and ad["kind"] == "enum":
                dv = int(ad["variants"][y.a[1]][1])
                return mk("eq", mk("discr", x, y.a[0]), cint(dv)) if e.fact(c.st, mk("discr", x, y.a[0])) is None \
                    else cint(int(e.fact(c.st, mk("discr", x, y.a[0])) == dv))
    return e.eqterm(a, b)


def vec_push(c):
    a, b = c.fz()
    st = c.st
    c.event(st, "call", "alloc::Vec::push", (a, b), None)
    bump(c, st, 0, "push", (b,))
    return c.deliver(st, UNIT)


LOCKS = {
    "core::RefCell::borrow": "r", "core::RefCell::borrow_mut": "w",
    "std::Mutex::lock": "w", "std::RwLock::read": "r", "std::RwLock::write": "w",
    "std::nonpoison::Mutex::lock": "w",
}


def lock(c, mode):
    e, st = c.e, c.st
    l = base(c.fz(0))
    if l.op == "cell": inner0 = l
    g = mk("guard", mode, l, c.site)
    # keep ('inner', lock) as the identity of the protected content
    g = mk("guard", mk("mode", mode), l, c.site)
    inner = mk("inner", l)
    if e.sync:
        cur = st.store.get(("o", inner), inner)
        st.store[("o", inner)] = mk("upd", base(cur), "reacquired", c.site, ())
    c.event(st, "lock", c.name, (l,), g, mode)
    if c.name.startswith("std::"): return c.deliver(st, ok(g))
    return c.deliver(st, g)


def cell_op(c):
    """RefCell::replace and the Cell operations: an exclusive access that ends at once."""
    e, st = c.e, c.st
    op = c.name.split("::")[-1]
    if op in ("take", "swap", "into_inner"): return None
    l = base(c.fz(0))
    inner = mk("inner", l)
    root = ("o", inner)
    old = st.store.get(root)
    if old is None: old = l.a[1] if l.op == "cell" else inner
    mode = "r" if op == "get" else "w"
    if c.name.startswith("core::RefCell"):
        g = mk("guard", mk("mode", mode), l, c.site)
        c.event(st, "lock", c.name, (l,), g, mode)
    if op == "get": return c.deliver(st, old)
    v = c.fz(1)
    st.store[root] = v
    if c.name.startswith("core::RefCell"):
        c.event(st, "drop", "drop", (g,), g)
    return c.deliver(st, UNIT if op == "set" else old)


def opt_as_mut(c):
    v = c.args[0]
    cur = val(c, v)
    root, path = v.a if v.op == "ref" else (("o", v), ())
    n = 0
    x = c.e.rd(c.st, root, path)
    while x.op == "ref" and n < 20:
        root, path = x.a
        x = c.e.rd(c.st, root, path)
        n += 1
    outs = []
    for s2, y in split_opt(c, c.e.freeze(c.st, x) if x.op != "adt" else x):
        outs.append((s2, some(mk("ref", root, path + (("f", 0, 1, SOME0),))) if y else NONE))
    return c.fork_deliver(outs)


def default_of(c, ty):
    if ty.startswith("alloc::String"): return cstr("")
    if ty.startswith("alloc::Vec<"): return mk("arr", ())
    if re.match(r"(std|alloc)::(HashMap|HashSet|BTreeMap|BTreeSet)<", ty): return mk("mapnew", c.site)
    if ty.startswith("core::Option<"): return NONE
    if ty in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "bool"): return cint(0)
    return mk("default", ty)


def entry_or(c):
    ent = val(c, c.args[0])
    if ent.op != "entry": return generic(c)
    m, k, ref, _, _ = ent.a
    if c.name.split("::")[-1] in ("or_insert_with", "and_modify"):
        cr = ("o", mk("clocell", c.args[1], c.site))
        c.st.store[cr] = c.args[1]
        return c.e.do_inline(c, c.e.P.fns["synthetic::" + c.name.split("::")[-1]], [ent, mk("ref", cr, ())])
    g = mapget(c, m, k)
    outs = []
    how = c.name.split("::")[-1]
    for s2, y in split_opt(c, g):
        if y:
            pl = g.a[2][0] if g.op == "adt" else mk("fld", g, SOME0)
            outs.append((s2, mk("ref", ("o", pl), ())))
        else:
            if how == "or_default": v = mk("mapnew", c.site) if "HashMap" in c.desttystr() else mk("default", c.desttystr(), c.site)
            else: v = c.fz(1)
            root, path = ref.a
            c.e.ev(s2, Ev("call", "std::HashMap::insert", (m, k, v), NONE, c.fr.fn, c.line, c.fr.id, None, c.e.loopctx(s2)))
            c.e.wr(s2, root, path, mk("upd", m, "insert", c.site, (k, v)))
            outs.append((s2, mk("ref", ("o", v), ())))
    return c.fork_deliver(outs)


def entry_op(c):
    en = val(c, c.args[0])
    op = c.name.split("::")[-1]
    ent = en.a[0] if en.op == "fld" and en.a[0].op == "entry" else None
    if ent is None: return generic(c)
    m, k, ref, _, _ = ent.a
    if "Vacant" in c.name and op == "insert":
        v = c.fz(1)
        c.event(c.st, "call", "std::HashMap::insert", (m, k, v), NONE)
        root, path = ref.a
        c.e.wr(c.st, root, path, mk("upd", m, "insert", c.site, (k, v)))
        return c.deliver(c.st, mk("ref", ("o", v), ()))
    if op in ("key", "into_key"): return c.deliver(c.st, k)
    if "Occupied" in c.name:
        g = mapget(c, m, k)
        pl = g.a[2][0] if g.op == "adt" and g.a[2] else mk("fld", g, SOME0)
        root, path = ref.a
        if op in ("get", "into_mut", "get_mut"): return c.deliver(c.st, mk("ref", ("o", pl), ()))
        if op == "insert":
            v = c.fz(1)
            c.event(c.st, "call", "std::HashMap::insert", (m, k, v), some(pl))
            c.e.wr(c.st, root, path, mk("upd", m, "insert", c.site, (k, v)))
            return c.deliver(c.st, pl)
        if op == "remove":
            c.event(c.st, "call", "std::HashMap::remove", (m, k), some(pl))
            c.e.wr(c.st, root, path, mk("upd", m, "remove", c.site, (k,)))
            return c.deliver(c.st, pl)
    return generic(c)


def position(it):
    """(elements already taken, iterator over all elements)"""
    k = it.a[2].a[1] if it.a[0] == "skip" and it.a[2].op == "c" else 0
    return k, it.a[1] if k else it


def short_list(it):
    """(elements already taken, iterator over a list of known values, what is applied to its elements, outermost first)"""
    outer = []
    while it.a[0] in ("map", "cloned", "copied", "by_ref"):
        outer.append(it)
        it = it.a[1]
    k, src = position(it)
    if src.a[0] != "src" or src.a[2] == "opaque" or src.a[1].op != "arr" or sum(x.a[0] == "map" for x in outer) > 1: return None
    return k, src, outer


def map_insert(c, st, i, pairs):
    """The pairs are put one by one into the map that argument i refers to."""
    for x in pairs:
        k, v = (c.e.proj(st, x, ("f", j, None, "tuple.%d" % j)) for j in (0, 1))
        m = c.fz(i)
        c.event(st, "call", "std::HashMap::insert", (m, k, v), mapget(c, m, k))
        bump(c, st, i, "insert", (k, v))


def map_of(c, st, pairs):
    m = mk("mapnew", c.site)
    for x in pairs:
        k, v = (c.e.proj(st, x, ("f", j, None, "tuple.%d" % j)) for j in (0, 1))
        c.event(st, "call", "std::HashMap::insert", (m, k, v), mapget(c, m, k))
        m = mk("upd", m, "insert", c.site, (k, v))
    return m


def known_items(a):
    """All elements of a list or of an iterator over a list, when they are known one by one."""
    if a.op == "arr": return a.a[0] if 0 < len(a.a[0]) <= 400 else None
    if not isiter(a): return None
    sl = short_list(a)
    if sl is None or not 0 < len(sl[1].a[1].a[0]) <= 400 or any(x.a[0] == "map" for x in sl[2]): return None
    return sl[1].a[1].a[0][sl[0]:]


MAPTY = ("std::HashMap<", "alloc::BTreeMap<", "std::BTreeMap<")


def place_of_iter(e, st, v, it):
    """Where the iterator is kept, when its position is the same every time this is executed; None when not."""
    root = path = None
    n = 0
    while v.op == "ref" and n < 20:
        root, path = v.a
        v, n = e.rd(st, root, path), n + 1
    if v is not it or root is None: return None
    own = [f for f in st.frames if f.id == root[0]]
    if not own and root[0] == "o" and root[1].op == "itercell":
        # the iterator that a consumer works through
        own = [f for f in st.frames if f.fn.nice.startswith("synthetic::") and e.rd(st, (f.id, 1), ()) is mk("ref", root, ())]
        if len(own) == 1 and own[0] is not st.frames[-1]: return None
        if len(own) == 1:
            o = own[0]
            if any(o.bb in body and h not in o.unroll for h, body in o.fn.loops().items()): return None
            return root, path
    if not own: return None
    o = own[0]
    if any(o.bb in body and h not in o.unroll and not e.dead_at(o.fn, h, root[1]) for h, body in o.fn.loops().items()): return None
    if any(f.bb in body and f.visited for f in st.frames[st.frames.index(o) + 1:] for body in f.fn.loops().values()): return None
    return root, path


def iter_next(c):
    it = val(c, c.args[0])
    e, st = c.e, c.st
    if not isiter(it):
        # opaque iterator object: treat its current (versioned) value as the source
        it = mk("iter", "src", base(e.freeze(st, it)), "opaque")
    else:
        # unless it is taken from again in a later iteration of a loop the position is known: what remains is the iterator without its first element
        sl = short_list(it)
        if sl is not None and sl[2] and 0 < len(sl[1].a[1].a[0]) and place_of_iter(e, st, c.args[0], it) is not None:
            k, inner, outer = sl
            at = place_of_iter(e, st, c.args[0], it)
            arr = inner.a[1]
            w = mk("iter", "skip", inner, cint(k + 1))
            for o in reversed(outer): w = mk("iter", o.a[0], w, *o.a[2:])
            e.wr(st, at[0], at[1], w)
            if k >= len(arr.a[0]):
                e.ev(st, Ev("exhausted", inner.a[2], (arr,), None, c.fr.fn, c.line, c.fr.id, it, e.loopctx(st)))
                return c.deliver(st, NONE)
            x = arr.a[0][k]
            e.ev(st, Ev("next", inner.a[2], (arr,), x, c.fr.fn, c.line, c.fr.id, it, e.loopctx(st)))
            f = [o.a[2] for o in outer if o.a[0] == "map"]
            if not f: return c.deliver(st, some(x))
            cr = ("o", mk("clocell", f[0], c.site))
            st.store[cr] = f[0]
            return e.do_inline(c, e.P.fns["synthetic::map_some"], [x, mk("ref", cr, ())])
        k, inner = position(it)
        at = place_of_iter(e, st, c.args[0], it) if inner.a[0] == "src" and inner.a[2] != "opaque" else None
        if at is not None:
            arr = inner.a[1]
            e.wr(st, at[0], at[1], mk("iter", "skip", inner, cint(k + 1)))
            if arr.op == "arr" and arr.a[0]:
                if k < len(arr.a[0]):
                    x = arr.a[0][k]
                    e.ev(st, Ev("next", inner.a[2], (arr,), x, c.fr.fn, c.line, c.fr.id, it, e.loopctx(st)))
                    return c.deliver(st, some(x))
                e.ev(st, Ev("exhausted", inner.a[2], (arr,), None, c.fr.fn, c.line, c.fr.id, it, e.loopctx(st)))
                return c.deliver(st, NONE)
            if k == 0: return drive(c, it, mk("eq", e.length(st, arr), cint(0)))
    return drive(c, it)


def drive(c, it, none=None):
    """Deliver Option<element> for abstract iterator `it` (forks)."""
    e, st = c.e, c.st
    a = st.fork()
    b = st
    b0 = iter_base(it)
    x = elem_of(c, it)
    if x is None:
        # map/filter chains: use a synthetic element transformed by the closures
        return drive_chain(c, it)
    n = mk("more", it, c.site)
    outs = []
    r = range_bounds(b0.a[1])
    if e.setfact(a, n, 1) and (none is None or e.setfact(a, none, 0)) and (r is None or all(e.setfact(a, mk("lt", *f), v) for f, v in (((mk("elem", b0.a[1], b0.a[2], c.site), r[1]), 1), ((mk("elem", b0.a[1], b0.a[2], c.site), r[0]), 0)))):
        e.ev(a, Ev("next", b0.a[2], (b0.a[1],), x, c.fr.fn, c.line, c.fr.id, it, e.loopctx(a)))
        outs.append((a, some(x)))
    if e.setfact(b, n, 0) and (none is None or e.setfact(b, none, 1)):
        e.ev(b, Ev("exhausted", b0.a[2], (b0.a[1],), None, c.fr.fn, c.line, c.fr.id, it, e.loopctx(b)))
        outs.append((b, NONE))
    if not outs and e.assume is None: raise Inconclusive("iterator")
    return c.fork_deliver(outs)


def range_bounds(t):
    """(from, to) of a range of numbers that is iterated."""
    if t.op == "adt" and t.a[0].split("::")[-1] == "Range" and len(t.a[2]) == 2 and all(x.op != "c" or isinstance(x.a[1], int) for x in t.a[2]): return t.a[2]
    return None


def drive_chain(c, it):
    e, st = c.e, c.st
    fn = e.P.fns.get("synthetic::next_" + it.a[0])
    if fn is None:
        r = mk("call", "iter.next", (e.freeze(st, it),), c.site)
        return c.deliver(st, r)
    inner = it.a[1]
    # references to locations for the inner iterator and closure
    ir = ("o", mk("itercell", inner, c.site))
    st.store[ir] = inner
    cr = ("o", mk("clocell", it.a[2], c.site))
    st.store[cr] = it.a[2]
    return e.do_inline(c, fn, [mk("ref", ir, ()), mk("ref", cr, ())])


CONSUME = ("any", "all", "find", "position", "for_each", "find_map", "count", "last", "nth", "collect", "fold", "max", "min", "sum", "try_for_each", "map_while", "partition", "unzip")


def iter_consume(c):
    k = c.defname.split("::")[-1]
    e, st = c.e, c.st
    if k == "from_iter": k = "collect"
    fn = e.P.fns.get("synthetic::" + k)
    a = val(c, c.args[0])
    if not isiter(a): 
        if a.op == "arr" and k == "collect" and c.desttystr().startswith("alloc::Vec<"): return c.deliver(st, e.freeze(st, a))
        a = mk("iter", "src", base(e.freeze(st, a)), "opaque")
    if k in ("count",) :
        r = pure(c, "iter.count", (e.freeze(st, a),))
        c.event(st, "call", c.name, (e.freeze(st, a),), r)
        return c.deliver(st, r)
    if fn is None: return NotImplemented
    if k == "collect":
        ds = c.desttystr()
        if ds.startswith("alloc::String"): fn = e.P.fns["synthetic::collect_str"]
        elif ds.startswith(("core::Result<std::HashMap<", "core::Result<alloc::BTreeMap<")): fn = e.P.fns["synthetic::collect_result_map"]
        elif ds.startswith(MAPTY):
            if known_items(a): return c.deliver(st, map_of(c, st, known_items(a)))
            fn = e.P.fns["synthetic::collect_map"]
        elif ds.startswith("core::Result<alloc::Vec"): fn = e.P.fns["synthetic::collect_result"]
        elif ds.startswith(("core::Result<", "core::Option<")): return NotImplemented
        k = fn.nice.split("::")[-1]
    if k == "try_for_each" and not c.desttystr().startswith("core::Result<"): return NotImplemented
    if k == "collect" and elem_of(c, a) is not None:
        return c.deliver(st, mk("collect", e.freeze(st, a)))
    ir = ("o", mk("itercell", a, c.site))
    st.store[ir] = a
    args = [mk("ref", ir, ())]
    for j, x in enumerate(c.args[1:]):
        if k == "fold" and j == 0:
            args.append(x)
            continue
        cr = ("o", mk("clocell", x, c.site))
        st.store[cr] = x
        args.append(mk("ref", cr, ()))
    return e.do_inline(c, fn, args)


def slice_get(c):
    """first / last / get: the element when the index is within the length."""
    e, st = c.e, c.st
    op = c.name.split("::")[-1].replace("_mut", "")
    v = c.fz(0)
    l = e.length(st, v)
    if op == "get":
        i = c.fz(1)
        if i.op == "adt" or (i.op == "call" and "Range" in str(i.a[0])) or "Range" in c.argtystr(1): return None
    elif op == "first": i = cint(0)
    else: i = add(l, cint(1), -1)
    cond = e.binop(st, "Lt", i if op != "last" else cint(0), l)
    outs = []
    for val_ in (1, 0):
        n = st.fork()
        if not e.setfact(n, cond, val_): continue
        if val_:
            el = v.a[0][i.a[1]] if v.op == "arr" and i.op == "c" and 0 <= i.a[1] < len(v.a[0]) else mk("idx", v, i)
            if c.name.endswith("_mut") and el.op == "idx": el = mk("ref", ("o", el), ())
            outs.append((n, some(el)))
        else: outs.append((n, NONE))
    return c.fork_deliver(outs)


def index(c):
    e, st = c.e, c.st
    v = c.fz(0)
    i = c.fz(1)
    mutr = c.defname.endswith("index_mut")
    if "HashMap" in c.argtystr(0):
        g = mapget(c, v, i)
        c.event(st, "call", "std::HashMap::get", (v, i), g)
        outs = []
        for s2, y in split_opt(c, g):
            if y: outs.append((s2, g.a[2][0] if g.op == "adt" else mk("fld", g, SOME0)))
            else: e.panic(s2, c.fr, c.line, "map index", (v, i))
        return c.fork_deliver(outs)
    if i.op == "adt" or (i.op == "call" and "Range" in str(i.a[0])):
        if i.op == "adt" and "RangeFull" in i.a[0]: return c.deliver(st, c.args[0])
        r = mk("slice", v, i)
        c.event(st, "slice", c.name, (v, i), r)
        if e.panics and not valid_range(c, v, i, "str" in c.argtystr(0).lower()): e.panic(st.fork(), c.fr, c.line, "slice", (v, i))
        return c.deliver(st, r)
    l = e.length(st, v)
    if l.op == "c" and i.op == "c":
        if i.a[1] < l.a[1]:
            if v.op == "arr":
                a = c.args[0]
                return c.deliver(st, v.a[0][i.a[1]])
        else:
            e.panic(st, c.fr, c.line, "bounds", (v, i))
            return False
    # vec built by pushes
    cond = e.binop(st, "Lt", i, l)
    kn = e.fact(st, cond)
    if kn == 0:
        e.panic(st, c.fr, c.line, "bounds", (v, i))
        return False
    if kn is None:
        if e.panics and not inbounds(c, v, i, l):
            n = st.fork()
            if e.setfact(n, cond, 0): e.panic(n, c.fr, c.line, "bounds", (v, i))
        e.setfact(st, cond, 1)
    r = mk("idx", v, i)
    c.event(st, "index", c.name, (v, i), r)
    if mutr:
        return c.deliver(st, mk("ref", ("o", r), ()))
    return c.deliver(st, r)


def boundary(c, v, k, text):
    """Position k is at most the length of v and, in text, between two characters."""
    e, st = c.e, c.st
    if k.op == "c" and k.a[1] == 0: return True
    if k is e.length(st, v): return True
    cp, parts = lin_parts(k)
    if len(parts) == 1:
        (x, m), = parts.items()
        if m == 1 and x.op == "fld" and x.a[1] == SOME0 and x.a[0].op == "call" and x.a[0].a[0] in ("core::str::find", "core::str::rfind") and x.a[0].a[1][0] is v:
            pat = x.a[0].a[1][1]
            if cp == 0: return True
            if pat.op == "c":
                pv = pat.a[1]
                n = len(pv.encode()) if isinstance(pv, str) else len(chr(pv).encode()) if isinstance(pv, int) else None
                if cp == n: return True
    for f, w in st.facts.items():
        if not isinstance(f, T): continue
        if f.op == "discr" and w == 1 and f.a[0].op == "call" and f.a[0].a[0] in ("core::str::get", "core::slice::get") and f.a[0].a[1][0] is v:
            r = f.a[0].a[1][1]
            if r.op == "adt" and any(x is k for x in r.a[2]) and "Inclusive" not in r.a[0]: return True
        if w == 1 and f.op == "call" and f.a[0].startswith("core::str::is_char_boundary") and f.a[1] == (v, k): return True
        if w == 1 and f.op == "call" and f.a[0] == "core::str::starts_with" and f.a[1][0] is v and f.a[1][1].op == "c":
            pv = f.a[1][1].a[1]
            n = len(pv.encode()) if isinstance(pv, str) else len(chr(pv).encode()) if isinstance(pv, int) else None
            if k.op == "c" and k.a[1] == n: return True
    if not text: return e.fact(st, e.binop(st, "Lt", e.length(st, v), k)) == 0
    return False


def valid_range(c, v, i, text):
    if i.op != "adt" or "Inclusive" in i.a[0]: return False
    if not all(boundary(c, v, k, text) for k in i.a[2]): return False
    if len(i.a[2]) < 2: return True
    a, b = i.a[2]
    return a.op == "c" and a.a[1] == 0 or c.e.fact(c.st, c.e.binop(c.st, "Lt", b, a)) == 0


# library functions that panic for some positions: the argument holding the position and whether the length itself is allowed
POSITION = {"alloc::Vec::remove": (1, False), "alloc::Vec::swap_remove": (1, False), "alloc::Vec::insert": (1, True), "alloc::Vec::split_off": (1, True), "core::slice::split_at": (1, True),
            "core::slice::split_at_mut": (1, True), "core::str::split_at": (1, True), "alloc::String::remove": (1, False), "alloc::String::insert": (1, True), "alloc::String::insert_str": (1, True),
            "alloc::String::truncate": (1, True), "alloc::String::split_off": (1, True), "alloc::VecDeque::remove": None, "alloc::Vec::drain": (1, None), "alloc::String::drain": (1, None),
            "alloc::String::replace_range": (1, None), "core::slice::swap": (1, False), "core::slice::copy_from_slice": (1, None), "core::slice::clone_from_slice": (1, None),
            "core::slice::chunks": (1, None), "core::slice::windows": (1, None)}


def may_panic(c):
    """Forks the panic of a library function that panics for bad positions."""
    x = POSITION.get(c.name)
    if x is None or not c.e.panics: return
    e, st = c.e, c.st
    v, i = c.fz(0), c.fz(x[0])
    l = e.length(st, v)
    text = "str::" in c.name or "String" in c.name
    if x[1] is None:
        good = i.op == "adt" and "RangeFull" in i.a[0] or "drain" in c.name and valid_range(c, v, i, text) or c.name.split("::")[-1] in ("chunks", "windows") and i.op == "c" and i.a[1] > 0
    elif x[1]: good = boundary(c, v, i, text)
    elif text: good = boundary(c, v, i, True) and e.fact(st, e.binop(st, "Lt", i, l)) == 1
    else:
        idx = [i] + ([c.fz(2)] if c.name.endswith("slice::swap") else [])
        good = all(e.fact(st, e.binop(st, "Lt", j, l)) == 1 or inbounds(c, v, j, l) for j in idx)
    if not good: e.panic(st.fork(), c.fr, c.line, short(c.name), (v, i))


def inbounds(c, v, i, l):
    """i < len(v) by shape: literal arrays grown by pushes have a known minimum length; iteration indices."""
    if i.op == "c":
        n = 0
        x = v
        while x.op == "upd" and x.a[1] in ("push",):
            n += 1
            x = x.a[0]
        if x.op == "arr": n += len(x.a[0])
        if i.a[1] < n: return True
        f = c.st.facts.get(mk("eq", l, cint(0)))
        if f == 0 and i.a[1] == 0: return True
    if i.op == "index":
        b = iter_base(i.a[0])
        if b.a[1] is v: return True
    return False
