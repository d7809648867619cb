"""Rules for crates/provider/sqlite3: reading only, query texts, scope of lookups, search order, details, schema."""
import re
from common import *
import threads as TH
import localiser as LR

ST = "i18n_provider_sqlite3::LocalisationProviderSqlite3"
TR = "<%s as LocalisationProviderTrait>::" % ST
TAGFN = "i18n_utility::LanguageTagRegistry::tag"
LOOKUPS = ("string", "string_exact_match", "strings")
PCFG = ("default", "sync")
PE = "i18n_provider::ProviderError"
READ_API = re.compile(r"^rusqlite::(Connection::(open_with_flags|prepare|prepare_cached|query_row|close|path|is_readonly|prepare_with_flags)|"
                      r"Statement::(query\w*|exists|column_\w+|parameter_\w+|bind_parameter|raw_query|raw_bind_parameter|expanded_sql|finalize|clear_bindings)|"
                      r"CachedStatement::\w+|Rows::\w+|MappedRows::\w+|AndThenRows::\w+|Row::\w+|OpenFlags::\w+|params_from_iter|Error::\w+|types::\w+.*|ToSql::to_sql|FromSql::column_result)$")
WRITE_FS = {"write", "create", "create_new", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "hard_link", "create_dir", "create_dir_all",
            "set_permissions", "set_len", "write_all", "append", "truncate", "set_times", "set_modified", "soft_link"}


def memo_p(f):
    def g(P):
        d = P.__dict__.setdefault("_memo_p", {})
        if f.__name__ not in d: d[f.__name__] = f(P)
        return d[f.__name__]
    return g


# ---------------------------------------------------------------- call graph

def callees(P):
    """fn key -> [(name, dkey, line)] of every function value mentioned in its body."""
    memo = P.__dict__.setdefault("_callees", {})
    if not memo:
        for f in P.fns.values():
            l = memo.setdefault(f.key, [])
            for b in f.blocks:
                for m in b["s"]: _refs(m, l, b["l"])
                _refs(b["t"], l, b["t"][-1] if b["t"] and isinstance(b["t"][-1], int) else b["l"])
    return memo


def _refs(x, l, line):
    if isinstance(x, dict):
        if "dkey" in x: l.append((x.get("res") or x.get("def"), x["dkey"], line, x.get("def")))
        for y in x.values(): _refs(y, l, line)
    elif isinstance(x, (list, tuple)):
        for y in x: _refs(y, l, line)


@memo_p
def toucher(P):
    """Functions from which a database query is reachable."""
    g = TH.edges(P)
    direct = {k for k, l in callees(P).items() if any("rusqlite" in (n or "") and "::query" in n for n, *_ in l)}
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for k, s in g.items():
            if k not in out and s & out: out.add(k); ch = True
    return out


def rettype(f):
    return tystr(f, f.locals[0])


def tystr(f, i, d=0):
    t = f.types[i]
    if d > 6: return "…"
    if t[0] == "adt": return t[1] + ("<%s>" % ",".join(tystr(f, x, d + 1) for x in t[2]) if len(t) > 2 and t[2] else "")
    if t[0] in ("ref", "ptr"): return "&" + tystr(f, t[1], d + 1)
    if t[0] == "tuple" or t[0] == "tup": return "(%s)" % ",".join(tystr(f, x, d + 1) for x in t[1])
    return str(t[0]) + (":" + str(t[1]) if len(t) > 1 and not isinstance(t[1], (list, tuple)) else "")


@memo_p
def readers(P):
    """Functions of the provider that run a query themselves and return what they read (as opposed to those that only fill the details)."""
    out = []
    for k, l in callees(P).items():
        if not any("rusqlite" in (n or "") and "::query" in n for n, *_ in l): continue
        f = P.fns[k]
        if f.kind != "fn" or f.traitimpl or not f.nice or "{closure" in f.nice or f.argc < 1: continue
        if TH.selfty(f) != ST: continue
        r = rettype(f)
        if "Details" in r or not r.startswith("core::Result<") or r.startswith("core::Result<()"): continue
        out.append(f.nice)
    return tuple(sorted(out))


@memo_p
def builders(P):
    out = []
    for k in toucher(P):
        f = P.fns[k]
        if f.kind != "fn" or f.traitimpl or not f.nice or "{closure" in f.nice or f.argc < 1: continue
        if TH.selfty(f) == ST and rettype(f).startswith("core::Result<()"): out.append(f.nice)
    return tuple(sorted(out))


# ---------------------------------------------------------------- running

def prun(ctx, cfg, nice, opaque=(), need=True):
    memo = ctx.__dict__.setdefault("_pmemo", {})
    k = (cfg, nice, tuple(opaque))
    if k not in memo:
        P = ctx.program(cfg)
        fn = P.find(nice)
        if fn is None:
            if need: ctx.ob("anchor:%s" % nice, False, nice, "function %s not found" % nice)
            memo[k] = None
        else:
            e = Engine(P, sync=False, opaque=(TAGFN,) + tuple(opaque), recurse=0)
            a = e.args_for(fn)
            try:
                ps = e.run(fn, a)
                ctx.used(e, ps)
                memo[k] = (fn, e, a, ps)
            except Inconclusive as x:
                ctx.ob("analysis:%s:%s" % (cfg, nice), False, fn.where(), "analysis of %s did not terminate within bounds: %s" % (nice, x))
                memo[k] = None
    return memo[k]


def roots(ctx, cfg):
    """Every analysed root that works on a database: name -> (fn, engine, args, paths)."""
    P = ctx.program(cfg)
    out = {}
    for m in LOOKUPS + ("identifier_details",): out[m] = prun(ctx, cfg, TR + m, builders(P) if m == "identifier_details" else ())
    for m in ("component_details", "repository_details"): out[m] = prun(ctx, cfg, TR + m, readers(P))
    for r in details_readers(ctx, cfg): out[r] = prun(ctx, cfg, r)
    out["try_new"] = prun(ctx, cfg, ST + "::try_new", schema_fns(P))
    for v in schema_fns(P): out[v] = prun(ctx, cfg, v)
    return {k: v for k, v in out.items() if v is not None}


@memo_p
def schema_fns(P):
    """Functions that check a connection and return the schema version."""
    out = []
    for k in toucher(P):
        f = P.fns[k]
        if f.kind == "fn" and f.argc == 1 and f.pub and f.nice and f.nice.startswith("i18n_provider_sqlite3::") and tystr(f, f.locals[1]).endswith("rusqlite::Connection"):
            out.append(f.nice)
    return tuple(sorted(out))


def details_readers(ctx, cfg):
    """Readers called while the details are collected."""
    P = ctx.program(cfg)
    r = prun(ctx, cfg, TR + "component_details", readers(P))
    if r is None: return []
    return sorted({ev.name for p in r[3] for ev in p.events if ev.kind == "call" and ev.name in readers(P)})


# ---------------------------------------------------------------- query texts

def last(n): return n.split("::")[-1]


class Exec:
    __slots__ = ("ev", "conn", "sql", "params", "q")


def execs(p):
    out = []
    for ev in p.events:
        if ev.kind != "call" or not ev.name or not re.match(r"rusqlite::(Statement|CachedStatement)::(query\w*|exists)$", ev.name): continue
        x = Exec()
        x.ev = ev
        x.q = ev.ret
        pr = [t for t in subterms(ev.args[0]) if t.op == "call" and re.match(r"rusqlite::Connection::prepare(_cached)?$", t.a[0])]
        x.conn = pr[0].a[1][0] if pr else None
        x.sql = pr[0].a[1][1] if pr else None
        a = ev.args[1] if len(ev.args) > 1 else None
        x.params = list(a.a[0]) if a is not None and a.op in ("arr", "tup") else None
        out.append(x)
    return out


def self_lookup(t, selfarg):
    """(field, key) when t is the payload of a lookup in a collection of self."""
    if t.op == "fld" and t.a[1] == SOME0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get":
        m, k = t.a[0].a[1]
        m = mapbase(m)
        if m.op == "inner": m = m.a[0]
        b, l = LR.flds(m)
        if b is selfarg and len(l) == 1: return l[0], k
    return None


def querytable(ctx, cfg):
    """(field, key) -> set of query texts kept under it, over every analysed path. Non-constant entries are None."""
    memo = ctx.__dict__.setdefault("_qt", {})
    if cfg in memo: return memo[cfg]
    tab = {}
    for name, (fn, e, a, ps) in roots(ctx, cfg).items():
        for p in ps:
            for ev in p.events:
                if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert", "or_insert_with") and len(ev.args) == 3:
                    m = mapbase(ev.args[0])
                    if m.op == "inner": m = m.a[0]
                    b, l = LR.flds(m)
                    if b is not a[0] or len(l) != 1: continue
                    k, v = ev.args[1], ev.args[2]
                    tab.setdefault((l[0], k.a[1] if k.op == "c" else None), set()).add((v.a[1] if v.op == "c" else None, ev.where()))
    memo[cfg] = tab
    return tab


def resolve(ctx, cfg, t, selfarg):
    """Set of texts a query term can have, None when it is not made of constants only."""
    if t.op == "c": return {t.a[1]}
    l = self_lookup(t, selfarg)
    if l and l[1].op == "c":
        s = querytable(ctx, cfg).get((l[0], l[1].a[1]))
        if s and all(x is not None for x, _ in s): return {x for x, _ in s}
    return None


def parse(sql):
    """{'cols': [...], 'table': t, 'where': {column: (kind, n)}, 'limit': bool} of the simple queries used here, else None."""
    s = re.sub(r"\s+", " ", sql.strip().rstrip(";")).strip()
    m = re.match(r"(?i)^select (distinct )?(.+?) from (\w+)(?: where (.+?))?(?: order by ([\w, ]+?))?( limit \d+)?$", s)
    if not m: return None
    w = {}
    if m.group(4):
        for c in re.split(r"(?i) and ", m.group(4)):
            c = c.strip()
            x = re.match(r"^(\w+) ?= ?\?(\d+)$", c)
            y = re.match(r"(?i)^(\w+) ?\|\| ?'-' like \?(\d+)$", c)
            z = re.match(r"^(\w+) ?= ?'([^']*)'$", c)
            if x: k, v = x.group(1), ("=", int(x.group(2)))
            elif y: k, v = y.group(1), ("prefix", int(y.group(2)))
            elif z: k, v = z.group(1), ("const", z.group(2))
            else: return None
            if k in w: return None
            w[k] = v
    return {"cols": [c.strip() for c in m.group(2).split(",")], "table": m.group(3), "where": w, "limit": m.group(6), "distinct": bool(m.group(1))}


def nparams(sql): return max([int(x) for x in re.findall(r"\?(\d+)", sql)] or [0])


def flagval(t):
    """Bits of an OpenFlags term."""
    while t.op == "adt" and len(t.a[2]) == 1: t = t.a[2][0]
    if t.op == "c" and isinstance(t.a[1], int): return t.a[1]
    if t.op == "call" and last(t.a[0]) in ("bitor", "union"):
        a, b = flagval(t.a[1][0]), flagval(t.a[1][1])
        return None if a is None or b is None else a | b
    return None


def c17(ctx):
    """Only reading."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        n = 0
        opens = set()
        for k, l in callees(P).items():
            f = P.fns[k]
            for name, dkey, line, d in l:
                nm = d or name or ""
                if dkey.startswith("rusqlite::"):
                    n += 1
                    simple = name if name.startswith("rusqlite::") else None
                    if simple: ctx.ob("%s:api:%s" % (cfg, last(simple)), bool(READ_API.match(simple)), f.where(line), "%s calls %s, which is not one of the reading operations" % (f.nice, simple))
                    if last(dkey).startswith("open"): opens.add((f.key, f.where(line)))
                elif dkey.startswith("std::fs::"):
                    ctx.ob("%s:fs:%s" % (cfg, last(dkey)), last(dkey) not in WRITE_FS, f.where(line), "%s calls %s: the library must not change files" % (f.nice, dkey))
                elif dkey.startswith("std::process::") and last(dkey) not in ("fmt", "clone"):
                    ctx.ob("%s:process:%s" % (cfg, last(dkey)), "Command" not in nm, f.where(line), "%s starts a process" % f.nice)
        ctx.ob("%s:calls" % cfg, n >= 20, "", "%d calls into the database library" % n)
        seen = set()
        for name, (fn, e, a, ps) in roots(ctx, cfg).items():
            for p in ps:
                for ev in p.events:
                    if ev.kind != "call" or not ev.name: continue
                    if re.match(r"rusqlite::Connection::open", ev.name):
                        seen.add(ev.where())
                        fl = flagval(ev.args[1]) if len(ev.args) > 1 else None
                        ctx.ob("%s:open:%s" % (cfg, last(name)), fl is not None and fl & 1 == 1 and fl & 6 == 0, ev.where(), "a database must be opened read-only; flags are %s" % (fl if fl is not None else show(ev.args[-1])))
                    elif re.match(r"rusqlite::Connection::(prepare|query_row)", ev.name):
                        s = resolve(ctx, cfg, ev.args[1], a[0])
                        ctx.ob("%s:select:%s" % (cfg, last(name)), s is not None and all(re.match(r"(?i)\s*select\b", x) and ";" not in x.strip().rstrip(";") and not re.search(r"(?i)\b(insert|update|delete|drop|attach|create|alter|replace|vacuum|load_extension|writefile)\b", x) for x in s),
                               ev.where(), "only a single SELECT statement may be prepared: %s" % (s if s is not None else show(ev.args[1])))
        for k, w in sorted(opens):
            ctx.ob("%s:opensite:%s" % (cfg, P.fns[k].nice.split("::")[-1]), w in seen, w, "the place where a database is opened was not reached by the analysis")


def columns():
    """table -> {column: position} of the schema shipped with the provider."""
    import infra, os
    s = open(os.path.join(infra.REPO, "crates/provider/sqlite3/l10n/schema.sql")).read()
    out = {}
    for m in re.finditer(r"(?is)CREATE TABLE (?:IF NOT EXISTS )?(\w+) \((.*?)\);\s*\n", s):
        body, depth, cur, parts = m.group(2), 0, "", []
        for c in body:
            if c == "(": depth += 1
            if c == ")": depth -= 1
            if c == "," and depth == 0: parts.append(cur.strip()); cur = ""
            else: cur += c
        parts.append(cur.strip())
        cols = []
        for x in parts:
            if re.match(r"(?i)(UNIQUE|CONSTRAINT|PRIMARY KEY|FOREIGN KEY|CHECK)\b", x): continue
            w = x.split()
            cols.append((w[0], w[1].upper(), 1 if re.search(r"(?i)NOT NULL", x) else 0, 1 if re.search(r"(?i)PRIMARY KEY", x) else 0))
        out[m.group(1)] = cols
    return out


def c18(ctx):
    """Query texts are constants, user text is only bound."""
    cols = columns()
    ctx.ob("schema", len(cols) >= 6, "crates/provider/sqlite3/l10n/schema.sql", "tables of the schema: %s" % sorted(cols))
    for cfg in PCFG:
        P = ctx.program(cfg)
        texts = set()
        for (fld, key), vals in querytable(ctx, cfg).items():
            for v, w in vals:
                ctx.ob("%s:kept:%s" % (cfg, key), key is not None and v is not None, w, "a query kept for reuse must be a constant text under a constant name")
            ctx.ob("%s:keyed:%s" % (cfg, key), len({v for v, _ in vals}) == 1, sorted(vals, key=str)[0][1],
                   "different queries are kept for reuse under one name %r: %s" % (key, sorted(str(v) for v, _ in vals)))
        nq = 0
        for name, (fn, e, a, ps) in roots(ctx, cfg).items():
            for p in ps:
                for x in execs(p):
                    nq += 1
                    k = "%s:%s" % (cfg, last(name))
                    s = resolve(ctx, cfg, x.sql, a[0]) if x.sql is not None else None
                    ctx.ob(k + ":constant", s is not None, x.ev.where(), "the text of the query must be constant, not %s" % (show(x.sql) if x.sql is not None else "unknown"))
                    for t in s or ():
                        texts.add(t)
                        np = len(x.params) if x.params is not None else (0 if not re.search(r"\?", t) and x.ev.args[1].op == "arr" else None)
                        ctx.ob(k + ":bound", np is not None and np == nparams(t) and "?" not in re.sub(r"\?\d+", "", t), x.ev.where(), "query %r is run with %s values" % (t, np))
        ctx.ob("%s:queries" % cfg, nq >= 30 and len(texts) >= 8, "", "%d query executions, %d texts" % (nq, len(texts)))
        for t in sorted(texts):
            q = parse(t)
            if q is None or q["table"].startswith("pragma_"):
                ctx.ob("%s:form:%s" % (cfg, t[:50]), q is not None and q["table"].startswith("pragma_") or bool(re.match(r"(?i)select \* from pragma_table_info\('\w+'\);?$", t)), "crates/provider/sqlite3/src/provider.rs", "query not understood: %r" % t)
                continue
            known = {c[0] for c in cols.get(q["table"], [])}
            used = set(q["where"]) | {c for c in q["cols"] if not re.match(r"(?i)count ?\( ?\*? ?\)$|\*$", c)}
            ctx.ob("%s:columns:%s" % (cfg, t[:50]), used <= known, "crates/provider/sqlite3/src/provider.rs", "query %r uses %s, unknown to the schema" % (t, sorted(used - known)))
        ctx.notes["query_texts_" + cfg] = sorted(texts)


# ---------------------------------------------------------------- rows and sources

def okpay(t): return t.a[0] if t.op == "fld" and t.a[1] == OK0 else None


def cell(t):
    """(row term, column index or name) when t is a value read from a row."""
    c = okpay(t)
    if c is not None and c.op == "call" and c.a[0] in ("rusqlite::Row::get", "rusqlite::Row::get_unwrap") and c.a[1][1].op == "c":
        return c.a[1][0], c.a[1][1].a[1]
    return None


def row_exec(row, xs):
    """The query execution a row belongs to."""
    if row.op != "fld" or row.a[1] != SOME0: return None
    n = okpay(row.a[0])
    if n is None or n.op != "call" or last(n.a[0]) != "next": return None
    for x in xs:
        if contains(n.a[1][0], x.q): return x
    return None


def column(ctx, cfg, x, i, selfarg):
    """Name of the i-th column of the execution x, when every text it can have agrees."""
    s = resolve(ctx, cfg, x.sql, selfarg) if x.sql is not None else None
    names = set()
    for t in s or ():
        q = parse(t)
        if q is None: return None
        if isinstance(i, str): names.add(i if i in q["cols"] else None)
        else: names.add(q["cols"][i] if i < len(q["cols"]) else None)
    return names.pop() if len(names) == 1 else None


def registered(t, reg=None):
    """Text given to the registry when t is a tag got from the registry of the provider."""
    c = okpay(t)
    if c is not None and c.op == "call" and c.a[0] == TAGFN: return c.a[1][1]
    return None


def source(x, comp, selfarg):
    """'aio' / 'own' / None: which database a connection belongs to."""
    out = set()
    for t in subterms(x):
        if t.op == "call" and t.a[0] == "map.get":
            m = mapbase(t.a[1][0])
            b, l = LR.flds(m)
            k = t.a[1][1]
            if b is selfarg and len(l) == 1:
                if k.op == "c" and k.a[1] == "__all_in_one__": out.add("aio")
                elif k is comp: out.add("own")
                else: out.add(None)
    return out.pop() if len(out) == 1 else None


def pointee(t):
    """What a reference into an object that is not changed meanwhile refers to."""
    if t is None or t.op != "ref" or t.a[0][0] != "o": return t
    x = t.a[0][1]
    for el in t.a[1]:
        if el[0] != "f": return t
        x = mk("fld", x, el[3])
    return x


def hvinfo(ps, h):
    """(initial value, [(path, next value)]) of a loop variable over the whole analysis."""
    lid, loc = h.a[0], h.a[1]
    nx = []
    for p in ps:
        if p.kind == "loop" and p.info == lid and not loc[1]:
            nx.append((p, pointee(p.store.get(loc[0]))))
    return pointee(h.a[2]), nx


def requested(e, a):
    """Terms that are the text of the requested tag."""
    return lambda t: t is not None and t.op in ("fld", "call") and any(s is a for s in subterms(t)) and not any(s.op == "call" and s.a[0] not in ("i18n_utility::LanguageTag::as_str",) for s in subterms(t))


def c19(ctx):
    """Lookups answer only with what is stored for the requested component, identifier and language."""
    for cfg in PCFG:
        for name, (fn, e, a, ps) in roots(ctx, cfg).items():
            k = "%s:%s" % (cfg, last(name))
            look = name in LOOKUPS
            comp = a[1] if len(a) > 1 else None
            ident = a[2] if (look or name == "identifier_details") else None
            tagarg = a[3] if look else None
            pushes = {}
            for p in ps:
                xs = execs(p)
                for x in xs:
                    if not look and name != "identifier_details": break
                    for t in resolve(ctx, cfg, x.sql, a[0]) or () if x.sql is not None else ():
                        q = parse(t)
                        if q is None: ctx.ob(k + ":form", False, x.ev.where(), "query not understood: %r" % t); continue
                        need = {"component", "identifier", "languageTag"} if look else {"component", "identifier"}
                        ctx.ob(k + ":table", q["table"] == "pattern" and set(q["where"]) == need, x.ev.where(), "query %r does not select by %s" % (t, sorted(need)))
                        w = q["where"]
                        def val(c):
                            kind, n = w.get(c, (None, None))
                            return (kind, x.params[n - 1]) if kind in ("=", "prefix") and x.params and 0 < n <= len(x.params) else (None, None)
                        if "component" in need:
                            kk, v = val("component")
                            ctx.ob(k + ":component", kk == "=" and v is not None and same(p, v, comp), x.ev.where(), "rows of another component: the column component is compared (%s) with %s" % (kk, show(v) if v is not None else None))
                        kk, v = val("identifier")
                        ctx.ob(k + ":identifier", kk == "=" and v is not None and same(p, v, ident), x.ev.where(), "rows of another identifier: the column identifier is compared (%s) with %s" % (kk, show(v) if v is not None else None))
                        if look:
                            kk, v = val("languageTag")
                            okk, why = tagbound(e, ps, p, kk, v, tagarg, name == "string_exact_match")
                            ctx.ob(k + ":language", okk, x.ev.where(), why)
                # what is collected
                for ev in p.events:
                    if ev.kind != "call" or not ev.name or not ev.name.startswith("alloc::Vec::") or last(ev.name) not in ("push", "insert", "append", "extend", "extend_from_slice"): continue
                    el = ev.args[-1]
                    if el.op == "tup" and len(el.a[0]) == 2 and look:
                        s, g = el.a[0]
                        cs, txt = cell(s), registered(g)
                        cg = cell(txt) if txt is not None else None
                        okk = cs is not None and cg is not None and cs[0] is cg[0]
                        x = row_exec(cs[0], xs) if okk else None
                        okk = okk and x is not None and column(ctx, cfg, x, cs[1], a[0]) == "string" and column(ctx, cfg, x, cg[1], a[0]) == "languageTag"
                        ctx.ob(k + ":element", okk, ev.where(), "an answer must be the string and the language tag of one row, not %s" % show(el)[:300])
                        pushes[ev.where()] = 1
                    elif look:
                        ctx.ob(k + ":element", last(ev.name) in ("append", "extend") and mapbase(el).op in ("arr",), ev.where(), "an answer must be the string and the language tag of one row, not %s" % show(el)[:300])
                    elif name == "identifier_details":
                        # one of those collected from the rows before, or all of them
                        src = el.a[0] if el.op == "elem" else el if last(ev.name) in ("append", "extend", "extend_from_slice") else None
                        if src is not None and src.op == "upd" and collected(src): continue
                        txt = registered(el)
                        c = cell(txt) if txt is not None else None
                        x = row_exec(c[0], xs) if c is not None else None
                        ctx.ob(k + ":element", x is not None and column(ctx, cfg, x, c[1], a[0]) == "languageTag", ev.where(), "a language of an identifier must be a language tag of its rows, not %s" % show(el)[:300])
                        pushes[ev.where()] = 1
                # what is answered
                if p.kind != "ret" or not (look or name == "identifier_details"): continue
                st, v = split_result(p)
                if st != "ok": continue
                if name in ("string", "string_exact_match"):
                    so, v2 = split_option(p, v)
                    if so == "none": continue
                    coll = taken_from(v, v2 if so == "some" else None)
                    okk = coll is not None and collected(coll)
                    ctx.ob(k + ":answer", okk, fn.where(), "the answer is not one of the collected rows: %s" % show(v)[:300])
                elif name == "strings":
                    ctx.ob(k + ":answer", collected(v), fn.where(), "the answer is not the collection of the rows: %s" % show(v)[:300])
                else:
                    okk = v.op == "adt" and len(v.a[2]) == 2 and any(collected(y) for y in v.a[2])
                    ctx.ob(k + ":answer", okk, fn.where(), "the languages are not those of the collected rows: %s" % show(v)[:300])
            if look or name == "identifier_details": ctx.ob(k + ":pushes", bool(pushes), fn.where(), "no place was found where rows are collected")


TAKES = ("pop", "pop_front", "pop_back", "first", "last", "get", "swap_remove", "remove")


def taken_from(v, some):
    """The collection an optional answer is an element of."""
    for x in (v, some):
        if x is None: continue
        while x.op == "fld" and x.a[1] == SOME0: x = x.a[0]
        if x.op == "call" and last(x.a[0]) in TAKES and x.a[1]: return x.a[1][0]
        if x.op in ("elem", "idx"): return x.a[0]
    return None


def collected(v):
    """A collection that only grew by pushing or in loops, from nothing."""
    while v.op == "upd":
        if v.a[1] not in ("push", "loop", "append", "extend", "pop", "reserve", "call") and last(str(v.a[1])) not in ("push", "pop", "append", "reserve", "shrink_to_fit"): return False
        v = v.a[0]
    return v.op == "arr" and not v.a[0]


def tagbound(e, ps, p, kind, v, tagarg, exact):
    if v is None: return False, "the language tag is not selected by a bound value"
    req = requested(e, tagarg)
    if exact:
        if kind != "=": return False, "an exact match must compare the language tag for equality"
        base = v
    elif kind == "prefix":
        if v.op == "cat" and len(v.a[0]) == 2 and v.a[0][1].op == "c" and v.a[0][1].a[1] == "-%": base = v.a[0][0]
        else: return False, "the language pattern must be the searched tag followed by \"-%%\", not %s" % show(v)
    elif kind == "=": base = v
    else: return False, "unknown comparison of the language tag"
    if req(base): return True, ""
    if base.op == "hv":
        init, nx = hvinfo(ps, base)
        if init is None or not req(init): return False, "the searched tag does not start as the requested one: %s" % (show(init) if init is not None else None)
        if exact and nx: return False, "an exact match must not search for any other tag"
        for q, n in nx:
            if not shortened(q, base, n): return False, "the searched tag is replaced by %s, which is not the tag without its last subtag" % (show(n) if n is not None else None)
        return True, ""
    if not exact and shortened(p, None, base): return True, ""
    return False, "the searched tag %s is not the requested one" % show(base)


def shortened(p, old, n):
    """n is old without its last subtag (or empty when it has only one)."""
    if n is None: return False
    if n.op == "c" and n.a[1] == "": return single_subtag(p, lambda t: old is None or t is old)
    cut = n.a[1].a[2][0] if n.op == "slice" and n.a[1].op == "adt" and n.a[1].a[0].split("::")[-1] in ("RangeTo", "Range") and (len(n.a[1].a[2]) == 1 or n.a[1].a[2][0].op == "c") else None
    for t in subterms(n):
        if t.op == "call" and last(t.a[0]) in ("rsplit_once", "rfind") and (old is None or t.a[1][0] is old) and sep(t):
            if last(t.a[0]) == "rsplit_once": return n is mk("fld", mk("fld", t, SOME0), "0") or (n.op in ("fld", "tf") and n.a[0] is mk("fld", t, SOME0) and str(n.a[1]).endswith("0"))
            if cut is None: return False
            return n.a[0] is t.a[1][0] and n.a[1].a[2][-1] is mk("fld", t, SOME0) and (len(n.a[1].a[2]) == 1 or n.a[1].a[2][0].a[1] == 0)
    return False


def single_subtag(p, of):
    """The path knows that a searched tag has no further subtag to remove."""
    return any(isinstance(t, T) and t.op == "discr" and v == 0 and t.a[0].op == "call" and last(t.a[0].a[0]) in ("rsplit_once", "rfind") and of(t.a[0].a[1][0]) and sep(t.a[0]) for t, v in p.facts.items())


def sep(c): return len(c.a[1]) > 1 and c.a[1][1].op == "c" and c.a[1][1].a[1] in ("-", 45)


# ---------------------------------------------------------------- search order

def flags(p, selfarg, comp):
    """{projection path: value} of the facts about the registration of the component."""
    out = {}
    for t, v in p.facts.items():
        if not isinstance(t, T) or v not in (0, 1): continue
        n, l = t, []
        while n.op in ("fld", "tf", "proj"):
            if n.a[1] == SOME0 and n.a[0].op == "call" and n.a[0].a[0] == "map.get": break
            l.append(n.a[1]); n = n.a[0]
        if not l or n.op != "fld" or n.a[0].op != "call": continue
        m, k = n.a[0].a[1]
        b, ml = LR.flds(mapbase(m))
        if b is selfarg and same(p, k, comp): out[(tuple(ml), tuple(l))] = v
    return out


def consult(p, comp, selfarg):
    """[(index of event, source)] of the statements prepared."""
    return [(i, source(ev.args[0], comp, selfarg), ev) for i, ev in enumerate(p.events)
            if ev.kind == "call" and ev.name and re.match(r"rusqlite::Connection::prepare", ev.name)]


def nothing(p, v):
    """v (a collection) is known to be empty on p."""
    if v is None: return False
    if v.op == "arr": return not v.a[0]
    return p.facts.get(mk("eq", mk("len", v), mk("c", "u", 0))) == 1 or any(isinstance(t, T) and t.op == "eq" and t.a[0].op == "len" and t.a[0].a[0] is v and t.a[1].op == "c" and t.a[1].a[1] == 0 and p.facts[t] == 1 for t in p.facts)


def lenfacts(p):
    """{collection: True when known empty, False when known not empty}"""
    out = {}
    for t, v in p.facts.items():
        if not isinstance(t, T): continue
        if t.op == "eq" and t.a[0].op == "len" and t.a[1].op == "c" and t.a[1].a[1] == 0: out[t.a[0].a[0]] = v == 1
        # taking one of its elements, or walking over all of them, tells the same
        elif t.op == "discr" and t.a[0].op == "call" and last(t.a[0].a[0]) in TAKES[:5] and len(t.a[0].a[1]) == 1: out[t.a[0].a[1][0]] = v == 0
        elif t.op == "more" and t.a[0].a[0] == "src" and t.a[0].a[2] != "opaque": out[t.a[0].a[1]] = v == 0
    return out


def unregistered(p, selfarg, comp, fields):
    for t, v in p.facts.items():
        if isinstance(t, T) and t.op == "discr" and v == 0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get":
            m, k = t.a[0].a[1]
            b, l = LR.flds(mapbase(m))
            if b is selfarg and same(p, k, comp) and tuple(l) in fields: return True
    return False


def c20(ctx):
    """Order and completeness of the search."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        R = roots(ctx, cfg)
        # which flags say that a component is in a source
        have = {"aio": None, "own": None}
        for name in LOOKUPS:
            if name not in R: continue
            fn, e, a, ps = R[name]
            for p in ps:
                f = flags(p, a[0], a[1])
                for i, s, ev in consult(p, a[1], a[0]):
                    if s in have:
                        t = {k for k, v in f.items() if v == 1}
                        have[s] = t if have[s] is None else have[s] & t
        ctx.ob("%s:sources" % cfg, bool(have["aio"]) and have["own"] is not None, "", "both sources must be consulted by the lookups: %s" % have)
        # the own file may be reached by a path on which the flag of the other is unknown, so its flag is the one true on every such path
        fields = {k[0] for s in have.values() for k in s or ()}
        for name in LOOKUPS + ("identifier_details",):
            if name not in R: continue
            fn, e, a, ps = R[name]
            k = "%s:%s" % (cfg, name)
            comp = a[1]
            for p in ps:
                cs = consult(p, comp, a[0])
                f = flags(p, a[0], comp)
                absent = lambda s: any(f.get(x) == 0 for x in have[s] or ()) or unregistered(p, a[0], comp, fields)
                lf = lenfacts(p)
                w = fn.where()
                for i, s, ev in cs:
                    ctx.ob(k + ":source", s is not None, ev.where(), "a query is run on a database that is neither the common one nor the one of the component: %s" % show(ev.args[0])[:200])
                order = [s for i, s, ev in cs]
                if "own" in order:
                    i = order.index("own")
                    ctx.ob(k + ":order", absent("aio") or "aio" in order[:i], cs[i][2].where(), "the own database is consulted although the common one has the component and was not consulted first")
                    if "aio" in order[:i] and name in LOOKUPS:
                        ctx.ob(k + ":firstempty", any(lf.get(v) is True for v in lf) , cs[i][2].where(), "the own database is consulted although the common one had an answer")
                if p.kind != "ret": continue
                st, v = split_result(p)
                if st != "ok": continue
                found = True
                if name == "strings": coll = v
                elif name == "identifier_details": coll = next((y for y in v.a[2] if collected(y)), None) if v.op == "adt" else None
                else:
                    so, v2 = split_option(p, v)
                    coll = taken_from(v, v2 if so == "some" else None)
                    if so == "none": coll = mk("arr", ())
                if coll is None: ctx.ob(k + ":answered", False, w, "answer not understood: %s" % show(v)[:200]); continue
                nonempty = lf.get(coll) is False and name in LOOKUPS   # the languages of an identifier are those of every source
                # an answer that may be empty is given only after every source that has the component was consulted
                if not nonempty:
                    for s in ("aio", "own"):
                        ctx.ob(k + ":complete:" + s, s in order or absent(s), w, "an answer that may be empty is given without consulting %s" % {"aio": "the common database", "own": "the own database of the component"}[s])
                elif order[-1:] == ["own"]: pass
            # every level is read to its end, and the next one is tried only when nothing was found
            levels(ctx, cfg, k, name, fn, e, a, ps)


def levels(ctx, cfg, k, name, fn, e, a, ps):
    req = requested(e, a[3]) if name in LOOKUPS else None
    for p in ps:
        xs = execs(p)
        nxt = [ev for ev in p.events if ev.kind == "call" and ev.name == "rusqlite::Rows::next"]
        lf = lenfacts(p)
        for n, x in enumerate(xs):
            ns = [ev for ev in nxt if contains(ev.args[0], x.q)]
            okq = p.facts.get(mk("discr", x.q, RES))
            if okq == 1: continue
            if p.kind == "panic": continue
            lastn = ns[-1].ret if ns else None
            if lastn is None:
                ctx.ob(k + ":read", False, x.ev.where(), "the rows of a query are not read"); continue
            if p.facts.get(mk("discr", lastn, RES)) == 1: continue
            opt = mk("fld", lastn, OK0)
            d = p.facts.get(mk("discr", opt, OPT))
            if d == 1:
                # inside a row: the row is collected or an error is returned, or (single answers) the row is the answer
                if p.kind == "loop":
                    row = mk("fld", opt, SOME0)
                    got = [ev for ev in p.events if ev.kind == "call" and ev.name == "alloc::Vec::push" and contains(ev.args[1], row)]
                    ctx.ob(k + ":everyrow", bool(got), ns[-1].where(), "a row that was found is not part of the answer")
                elif p.kind == "ret" and split_result(p)[0] == "ok":
                    ctx.ob(k + ":allrows", name in ("string", "string_exact_match"), ns[-1].where(), "the search ends before the last row was read")
            else:
                ctx.ob(k + ":end", d == 0, ns[-1].where(), "the outcome of reading a row is not examined")
        # the tag is shortened only when the level found nothing
        if p.kind == "loop":
            for x in xs:
                v = x.params[1] if x.params and len(x.params) > 1 else None
                for t in subterms(v) if v is not None else ():
                    if t.op == "hv" and t.a[0] == p.info:
                        ctx.ob(k + ":nextlevel", any(y is True for y in lf.values()), x.ev.where(), "a shorter tag is searched although strings were found for the longer one")
        elif p.kind == "ret" and split_result(p)[0] == "ok" and name in LOOKUPS:
            st, v = split_result(p)
            # every source that was searched without an answer was searched down to the primary language
            for i, s, ev in consult(p, a[1], a[0]):
                hs = [x for x in xs if contains(x.ev.args[0], ev.ret)]
                # the loop left because of its own condition: the searched tag became empty
                ok_end = any(isinstance(t, T) and t.op == "eq" and t.a[0].op == "len" and (t.a[0].a[0].op == "hv" or req(t.a[0].a[0])) and t.a[1].op == "c" and t.a[1].a[1] == 0 and v2 == 1 for t, v2 in p.facts.items())
                searched = [t for x in hs if x.params and len(x.params) > 1 for t in subterms(x.params[1])]
                ok_end = ok_end or single_subtag(p, lambda t: t in searched)
                some_found = any(y is False and collected(c) for c, y in lf.items())
                if name == "string_exact_match":
                    ctx.ob(k + ":depth", bool(hs) or ok_end, ev.where(), "the database is not searched")
                else:
                    ctx.ob(k + ":depth", ok_end or some_found, ev.where(), "the search gives up before the primary language was tried")


# ---------------------------------------------------------------- errors

IGNORED = ("rusqlite::Connection::open_with_flags",)   # a file that cannot be opened is skipped (documented by the log message)


def failures(p):
    """Calls known to have failed on the path."""
    out = []
    for t, v in p.facts.items():
        if isinstance(t, T) and t.op == "discr" and len(t.a) > 1 and t.a[1] == RES and v == 1 and t.a[0].op == "call": out.append(t.a[0])
    return out


def default_missing(ctx, k, kinds, fn, p, selfarg, comp):
    """A default language is missing only when no database that has the component has one."""
    asked = {ev.args[-1] for ev in p.events if ev.kind == "call" and kinds.get(ev.name) == "default" and len(ev.args) > 2 and same(p, ev.args[1], comp)
             and p.facts.get(mk("discr", mk("fld", ev.ret, OK0), "core::Option")) == 0}
    fl = {t: v for t, v in p.facts.items() if isinstance(t, T) and t.op == "fld" and over_components(t, selfarg) is not None and v in (0, 1)}
    has = [t for t, v in fl.items() if v == 1]
    ctx.ob(k + ":missing", len(asked) == len(has) and len(fl) >= 2, fn.where(), "a default language is reported as missing after asking %d of the databases that have the component" % len(asked))


def c21(ctx):
    """No failure is swallowed, none is invented."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        kinds = {r: kind_of(v[4]) for r, v in reads_of(ctx, cfg).items()}
        for name, (fn, e, a, ps) in roots(ctx, cfg).items():
            k = "%s:%s" % (cfg, last(name))
            n = 0
            for p in ps:
                fs = failures(p)
                if p.kind == "panic": continue
                st, v = split_result(p) if p.kind == "ret" else (None, None)
                for ev in p.events:
                    if ev.kind == "call" and ev.name and ev.ret is not None and (re.match(r"rusqlite::(Connection::prepare|Statement::query|CachedStatement::|Rows::next|Row::get$)", ev.name) or ev.name == TAGFN or ev.name in readers(P) or ev.name in schema_fns(P)):
                        ctx.ob(k + ":examined:" + last(ev.name), mk("discr", ev.ret, RES) in p.facts or contains(p.value, ev.ret) if p.kind == "ret" else mk("discr", ev.ret, RES) in p.facts, ev.where(), "the outcome of %s is not examined" % last(ev.name))
                carried = [c for c in fs if st == "err" and contains(v, mk("fld", c, ERR0))]
                for c in fs:
                    n += 1
                    nm = last(c.a[0])
                    if name == "try_new":
                        if c.a[0] in IGNORED: continue
                        if nm == "try_into":
                            ctx.ob(k + ":conversion", st == "err" and variant_name(P, v) == "PathConversion", fn.where(), "a path that cannot be converted must be reported as such")
                            continue
                    ev = next((x for x in p.events if x.ret is c), None)
                    ctx.ob(k + ":reported:" + nm, c in carried, ev.where() if ev is not None else fn.where(),
                           "a failure of %s is not reported: the %s" % (nm, "function returns %s" % show(p.value)[:200] if p.kind == "ret" else "function goes on"))
                if st == "err" and not carried and name in LOOKUPS + ("identifier_details", "component_details", "repository_details"):
                    vn = variant_name(P, v)
                    pp_ = v.a[2][0] if v.op == "adt" and v.a[2] else None
                    if fs: continue
                    if vn == "ComponentNotFound":
                        comp = a[1] if len(a) > 1 else None
                        miss = any(isinstance(t, T) and t.op == "discr" and x == 0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get" and same(p, t.a[0].a[1][1], comp) for t, x in p.facts.items()) if comp is not None else False
                        both = len([1 for x in flags(p, a[0], comp).values() if x == 0]) >= 1 if comp is not None else False
                        ctx.ob(k + ":notfound", comp is not None and (miss or both) and same(p, pp_, comp), fn.where(), "a component is reported as unknown without a look at the known ones")
                    elif vn in ("DefaultLanguage", "InvalidDefaultLanguage"):
                        ctx.ob(k + ":defaults", name in ("component_details", "repository_details"), fn.where(), "%s is an error of the details" % vn)
                        if vn == "DefaultLanguage": default_missing(ctx, k, kinds, fn, p, a[0], pp_)
                        else:
                            d = [t.a[0].a[1] for t, x in p.facts.items() if isinstance(t, T) and t.op == "discr" and x == 0 and t.a[0].op == "call" and t.a[0].a[0] == "map.get" and t.a[0].a[1][0].op != "fld"]
                            okk = any(s_.op == "call" and kinds.get(s_.a[0]) == "default" and same(p, s_.a[1][1], pp_) for m, key in d for s_ in subterms(key))
                            ctx.ob(k + ":unlisted", okk, fn.where(), "the default language of a component is reported as not listed although it was not looked up among its languages")
                    else:
                        ctx.ob(k + ":invented", False, fn.where(), "an error is returned although nothing failed: %s" % show(v)[:200])
            ctx.ob(k + ":failures", n > 0 or name in (), fn.where(), "no failing call seen")


# ---------------------------------------------------------------- details

CD, RD, LD, ID = ("i18n_provider::" + x for x in ("ComponentDetails", "RepositoryDetails", "LanguageData", "IdentifierDetails"))


def fieldno(P, ty, name):
    for i, f in enumerate(P.adts[ty]["variants"][0][2]):
        if f[0] == name: return i
    return None


def reads_of(ctx, cfg):
    """reader -> {'table', 'cols', 'where'} of its query."""
    out = {}
    R = roots(ctx, cfg)
    for r in details_readers(ctx, cfg):
        fn, e, a, ps = R[r]
        qs = []
        for p in ps:
            for x in execs(p):
                for t in resolve(ctx, cfg, x.sql, a[0]) or ("",):
                    q = parse(t)
                    if q is not None: qs.append((q, x, p))
        out[r] = (fn, e, a, ps, qs)
    return out


def kind_of(qs):
    ks = set()
    for q, x, p in qs:
        c = q["cols"][0].lower().replace(" ", "")
        if c.startswith("count("): ks.add("count")
        elif q["table"] == "component" and c == "languagetag": ks.add("default")
        elif q["table"] == "contributor" and c == "contributor": ks.add("contributors")
        elif q["table"] in ("pattern", "contributor") and c == "languagetag": ks.add("languages")
        else: ks.add("?")
    return ks.pop() if len(ks) == 1 else None


def over_components(t, selfarg):
    """(source) when t is the name in an element of a collection of self."""
    for s in subterms(t):
        if s.op == "elem":
            b, l = LR.flds(mapbase(s.a[0]))
            if b is selfarg and len(l) == 1: return s
    return None


def c22(ctx):
    for cfg in PCFG:
        P = ctx.program(cfg)
        R = roots(ctx, cfg)
        rd = reads_of(ctx, cfg)
        kinds = {r: kind_of(v[4]) for r, v in rd.items()}
        for want in ("languages", "default", "count", "contributors"):
            ctx.ob("%s:reader:%s" % (cfg, want), want in kinds.values(), "crates/provider/sqlite3/src/provider.rs", "no function reads the %s for the details: %s" % (want, kinds))
        for r, (fn, e, a, ps, qs) in rd.items():
            k = "%s:%s" % (cfg, last(r))
            for q, x, p in qs:
                need = {"component"} if q["table"] != "component" else {"identifier"}
                if kinds[r] in ("count", "contributors"): need = need | {"languageTag"}
                ctx.ob(k + ":scope", set(q["where"]) == need and all(v[0] == "=" for v in q["where"].values()), x.ev.where(), "the query does not select by %s: %s" % (sorted(need), q["where"]))
                for c in q["where"]:
                    kind, n = q["where"][c]
                    v = x.params[n - 1] if kind == "=" and x.params and 0 < n <= len(x.params) else None
                    okk = v is not None and (same(p, v, a[1]) if c != "languageTag" else requested(e, a[2])(v))
                    ctx.ob(k + ":bound:" + c, okk, x.ev.where(), "column %s is compared with %s" % (c, show(v) if v is not None else None))
                if kinds[r] == "languages": ctx.ob(k + ":distinct", q["distinct"], x.ev.where(), "each language is to be listed once")
            for p in ps:
                xs = execs(p)
                if p.kind == "loop":
                    got = [ev for ev in p.events if ev.kind == "call" and ev.name == "alloc::Vec::push"]
                    for ev in got:
                        el = ev.args[1]
                        c = cell(registered(el)) if registered(el) is not None else cell(el)
                        ctx.ob(k + ":element", c is not None and row_exec(c[0], xs) is not None and c[1] == 0, ev.where(), "what is collected is not the value of the row: %s" % show(el)[:200])
                    if kinds[r] in ("languages", "contributors"): ctx.ob(k + ":everyrow", len(got) == 1, fn.where(), "a row that was found is not collected")
        for name in ("component_details", "repository_details"):
            if name not in R: continue
            fn, e, a, ps = R[name]
            k = "%s:%s" % (cfg, name)
            di, ti, li = fieldno(P, CD, "default"), fieldno(P, CD, "total_strings"), fieldno(P, CD, "languages")
            nins = 0
            comploops = set()
            for p in ps:
                ins = []
                for ev in p.events:
                    if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3:
                        v = ev.args[2]
                        if v.op == "adt" and v.a[0] == CD: ins.append((ev, ev.args[1], v))
                for ev, key, v in ins:
                    nins += 1
                    el = over_components(key, a[0])
                    ctx.ob(k + ":keyed", el is not None and key.op == "fld", ev.where(), "the details must be kept under the name of their component, not %s" % show(key)[:200])
                    d = v.a[2][di]
                    # default language: read for this component, and one of its languages
                    rc = [t for t in subterms(d) if t.op == "call" and t.a[0] in kinds]
                    ctx.ob(k + ":default", d.op == "fld" and d.a[1] == SOME0 and len(rc) == 1 and kinds[rc[0].a[0]] == "default" and any(same(p, x, key) for x in rc[0].a[1]), ev.where(),
                           "the default language must be the one stored for the component, not %s" % show(d)[:200])
                    mem = any(isinstance(t, T) and t.op == "discr" and y == 1 and t.a[0].op == "call" and t.a[0].a[0] == "map.get" and t.a[0].a[1][1] is d and mapbase(t.a[0].a[1][0]) is mapbase(v.a[2][li]) for t, y in p.facts.items())
                    ctx.ob(k + ":defaultlisted", mem, ev.where(), "the default language is not checked to be one of the languages of the component")
                    comploops.add(ev.loops[-1] if ev.loops else None)
            ctx.ob(k + ":inserts", nins > 0 and None not in comploops, fn.where(), "no details are kept per component")
            for p in ps:
                if p.kind == "loop" and p.info in comploops:
                    n = [ev for ev in p.events if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and ev.args[2].op == "adt" and ev.args[2].a[0] == CD]
                    ctx.ob(k + ":everycomponent", len(n) == 1, fn.where(), "a component gets no details")
                # the languages come from the rows of the component
                for ev in p.events:
                    if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and ev.args[2].op == "adt" and ev.args[2].a[0] == LD:
                        src = [t for t in subterms(ev.args[1]) if t.op == "call" and t.a[0] in kinds]
                        ctx.ob(k + ":languages", bool(src) and kinds[src[0].a[0]] == "languages", ev.where(), "a language is listed that was not read for the component: %s" % show(ev.args[1])[:200])
                        ctx.ob(k + ":fresh", ev.args[2].a[2][fieldno(P, LD, "count")].op == "c" and ev.args[2].a[2][fieldno(P, LD, "count")].a[1] == 0, ev.where(), "the count of a language must start at 0")
                        m = [t for t in p.facts if isinstance(t, T) and t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] == "map.get" and t.a[0].a[1][1] is ev.args[1]]
            totals(ctx, k, P, fn, ps, kinds, a[0])
            # what is answered is what was kept
            for p in ps:
                if p.kind != "ret": continue
                st, v = split_result(p)
                if st != "ok": continue
                if name == "component_details":
                    okk = v.op == "fld" and v.a[1] == SOME0 and v.a[0].op == "call" and v.a[0].a[0] == "map.get" and same(p, v.a[0].a[1][1], a[1]) and once_of(p, v.a[0].a[1][0], a[0]) is not None
                else:
                    okk = once_of(p, v, a[0]) is not None
                ctx.ob(k + ":answer", okk, fn.where(), "the answer must be the details kept for the request, not %s" % show(v)[:200])
                fl = [ev for ev in p.events if ev.kind == "call" and ev.name and re.search(r"::(set|take|replace)$", ev.name) and "Once" in ev.name]
                for ev in fl:
                    ctx.ob(k + ":set", last(ev.name) == "set", ev.where(), "details once kept must not be replaced")
        if "identifier_details" in R:
            fn, e, a, ps = R["identifier_details"]
            i = fieldno(P, ID, "default")
            n = 0
            for p in ps:
                st, v = split_result(p) if p.kind == "ret" else (None, None)
                if st != "ok": continue
                d = v.a[2][i] if v.op == "adt" and v.a[0] == ID else None
                g = [t for t in subterms(d) if t.op == "call" and t.a[0] == "map.get"] if d is not None else []
                n += 1
                ctx.ob("%s:identifier:default" % cfg, d is not None and d.op == "fld" and str(d.a[1]).endswith("ComponentDetails.default") and len(g) == 1 and same(p, g[0].a[1][1], a[1]) and d.a[0] is mk("fld", g[0], SOME0), fn.where(),
                       "the default language of an identifier must be the one of its component, not %s" % (show(d)[:200] if d is not None else show(v)[:200]))
            ctx.ob("%s:identifier:paths" % cfg, n > 0, fn.where(), "no successful path")


def chain(t):
    """Ids of the loops and the arguments of the calls that made a collection what it is."""
    loops, args = set(), []
    while t.op == "upd":
        if t.a[1] == "loop": loops.add(t.a[2])
        else: args += [x for x in t.a[2:] if isinstance(x, T)]
        t = t.a[0]
    return loops, args


def equals(t, el):
    """The list whose element is compared with el."""
    if t.op != "eq": return None
    for x, y in (t.a[:2], t.a[1::-1]):
        if y is el and x.op == "elem" and x is not el: return x.a[0]
    return None


def holding(p, el):
    """Lists known to have the element on the path."""
    for t, v in p.facts.items():
        if not isinstance(t, T) or v != 1: continue
        if t.op == "call" and last(t.a[0]) == "contains" and len(t.a[1]) == 2 and t.a[1][1] is el: yield t.a[1][0]
        elif equals(t, el) is not None: yield equals(t, el)


def has_el(ps, p, lst, el):
    """Whether the list is known (True, False) to have the element on the path, None when it is not."""
    b = mapbase(lst)
    if any(mapbase(x) is b for x in holding(p, el)): return True
    for t, v in p.facts.items():
        if not isinstance(t, T) or v != 0: continue
        if t.op == "call" and last(t.a[0]) == "contains" and len(t.a[1]) == 2 and mapbase(t.a[1][0]) is b and t.a[1][1] is el: return False
        # every element of the list was compared with it
        if t.op == "more" and t.a[0].a[0] == "src" and mapbase(t.a[0].a[1]) is b:
            it = [q for q in ps if q.kind == "loop" and q.info == t.a[1] and any(ev.kind == "next" and ev.ret is el for ev in q.events)]
            if it and all(any(isinstance(f, T) and x == 0 and equals(f, el) is not None and mapbase(equals(f, el)) is b for f, x in q.facts.items()) for q in it): return False
    return None


def pushes(p, loop=None):
    for ev in p.events:
        if ev.kind == "call" and ev.name in ("alloc::Vec::push", "alloc::Vec::insert") and (loop is None or loop in ev.loops): yield ev, ev.args[0], ev.args[-1]


def c45(ctx):
    """Lists of the details: complete and without repetition; ratios."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        R = roots(ctx, cfg)
        rd = reads_of(ctx, cfg)
        kinds = {r: kind_of(v[4]) for r, v in rd.items()}
        for name in ("component_details", "repository_details"):
            if name in R: listed(ctx, "%s:%s" % (cfg, name), P, R[name], kinds)
        if "identifier_details" in R: identifier_list(ctx, "%s:identifier_details" % cfg, P, R["identifier_details"])


def listed(ctx, k, P, root, kinds):
    fn, e, a, ps = root
    CF, RF = LD + ".contributors", LD + ".ratio"
    li = lambda adt, f: fieldno(P, adt, f)
    cmap, rmap, kept, defaults, comploops, names = set(), set(), {}, set(), set(), set()
    for p in ps:
        for ev in p.events:
            if ev.kind != "call" or not ev.name: continue
            if last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and ev.args[2].op == "adt" and ev.args[2].a[0] == CD:
                cmap.add(mapbase(ev.args[2].a[2][li(CD, "languages")])); defaults.add(ev.args[2].a[2][li(CD, "default")]); names.add(ev.args[1]); comploops.add(ev.loops[-1] if ev.loops else None)
            if last(ev.name) == "set" and "Once" in ev.name:
                for t in subterms(ev.args[1]):
                    if t.op == "adt" and t.a[0] == RD: kept[t] = (ev, p); rmap.add(mapbase(t.a[2][li(RD, "languages")]))
            if last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and ev.args[2].op == "adt" and ev.args[2].a[0] == LD:
                c, r = ev.args[2].a[2][li(LD, "contributors")], ev.args[2].a[2][li(LD, "ratio")]
                ctx.ob(k + ":fresh", c.op == "arr" and not c.a[0] and r.op == "c" and float(r.a[1]) == 0, ev.where(), "a language starts with contributors or with a ratio")
    ctx.ob(k + ":kept", bool(cmap) and bool(rmap) and bool(kept), fn.where(), "the details kept for the components and the repository are not understood")
    reading = lambda t: t.op == "fld" and t.a[1] == OK0 and t.a[0].op == "call" and kinds.get(t.a[0].a[0]) == "contributors"
    lang = lambda r: r.a[0].a[1][2]

    def entry(t):
        """('component' | 'language', key) when t is the list of contributors of an entry of the languages of the component or of the repository."""
        t = mapbase(t)
        if t.op != "fld" or t.a[1] != CF: return None
        g = t.a[0]
        if g.op == "fld" and g.a[1] == SOME0 and g.a[0].op == "call" and g.a[0].a[0] == "map.get":
            m = mapbase(g.a[0].a[1][0])
            return ("component" if m in cmap else "language" if m in rmap else None), g.a[0].a[1][1]
        return None

    def assigned(p, r):
        """Keys of the entries of the component whose list was set to what was read."""
        for loc, v in p.store.items():
            if loc[0] == "o" and v.op == "with" and isinstance(loc[1], T):
                for f, x in v.a[1]:
                    if f == CF and mapbase(x) is r:
                        en = entry(mk("fld", loc[1], CF))
                        if en: yield en

    def role(p, lst, r):
        """What the list is, and whether it belongs to the language of the reading r."""
        b = mapbase(lst)
        en = entry(b)
        if en: return en[0] if en[1] is lang(r) else "other"
        if reading(b):
            for c, key in assigned(p, b): return c if key is lang(r) else "other"
            return None
        return "repository" if b.op == "arr" and not b.a[0] else None

    lists = 0
    for p in ps:
        if p.kind != "loop": continue
        w = fn.where()
        # languages: every database that has the component is asked for the contributors
        here = [ev for ev in p.events if ev.kind == "call" and ev.name in kinds and ev.loops and ev.loops[-1] == p.info]
        if any(kinds[ev.name] in ("count", "contributors") for ev in here):
            cs = [ev for ev in here if kinds[ev.name] == "contributors"]
            fl = [t for t in p.facts if isinstance(t, T) and t.op == "fld" and over_components(t, a[0]) is not None and p.facts[t] == 1]
            flags_ = [ev.args[-1] for ev in cs]
            ctx.ob(k + ":sources", len(cs) == len(fl) == len(set(flags_)), here[0].where(), "the contributors of a language are read from %d databases although the component is in %d" % (len(set(flags_)), len(fl)))
            for ev in cs:
                lst = mk("fld", ev.ret, OK0)
                walked = any(x.kind in ("exhausted", "next") and x.args and mapbase(x.args[0]) is lst for x in p.events)
                ctx.ob(k + ":walked", walked, ev.where(), "the contributors that were read are not put on the lists")
        # contributors: each one read is on the three lists
        nx = [ev for ev in p.events if ev.kind == "next" and ev.loops and ev.loops[-1] == p.info and ev.args and reading(mapbase(ev.args[0]))]
        for n in nx:
            r, el = mapbase(n.args[0]), n.ret
            lists += 1
            got = {}
            for ev, lst, v in pushes(p, p.info):
                if v is not el: continue
                what = role(p, lst, r)
                got[what] = got.get(what, 0) + 1
                ctx.ob(k + ":place", what in ("component", "language", "repository"), ev.where(), "a contributor is put on a list of something else")
                ctx.ob(k + ":once", has_el(ps, p, lst, el) is False, ev.where(), "a contributor is added to a list that may have it already")
            for lst in holding(p, el):
                what = role(p, lst, r)
                got[what] = got.get(what, 0) + 1
            for c, key in assigned(p, r):
                if key is lang(r): got[c] = got.get(c, 0) + 1
            for what in ("component", "language", "repository"):
                ctx.ob(k + ":listed:" + what, got.get(what) == 1, n.where(), "a contributor read for a language of a component is put %d times on the list of %s" % (got.get(what, 0), {"component": "that language of the component", "language": "that language of the repository", "repository": "the repository"}[what]))
        # components: each one is listed
        if p.info in comploops:
            cs = [ev for ev, lst, v in pushes(p, p.info) if v in names and mapbase(lst).op == "arr"]
            direct = [t for t in kept if all_names(t.a[2][li(RD, "components")], a[0])]
            ctx.ob(k + ":components", len(cs) == 1 or bool(direct), cs[0].where() if cs else w, "a component is put %d times on the list of the repository" % len(cs))
    ctx.ob(k + ":lists", lists > 0, fn.where(), "no contributors are listed")
    # the default language of the repository is that of the application
    for t, (ev, p0) in kept.items():
        d = t.a[2][li(RD, "default")]
        ok_ = d.op == "hv" and d.a[2].op == "adt" and d.a[2].a[1] == 0
        ctx.ob(k + ":default:initial", ok_, ev.where(), "the default language of the repository is not none before the components are looked at: %s" % show(d)[:160])
        if not ok_: continue
        n = 0
        for q in ps:
            if q.kind != "loop" or q.info != d.a[0]: continue
            x = nextval(q, d.a[1])
            app = application(q, a[0])
            n += 1
            if app is False: okk = x is d
            elif app is True: okk = x is not None and x is not d and any(s.op == "call" and kinds.get(s.a[0]) == "default" for s in subterms(x)) and (any(contains(y, x) or contains(x, y) for y in defaults))
            else: okk = False
            ctx.ob(k + ":default", okk, ev.where(), "the default language of the repository is not that of the application component: %s" % (show(x)[:200] if x is not None else None))
        ctx.ob(k + ":default:paths", n > 0, ev.where(), "no component is looked at for the default language")
    # ratios
    nr = {"c": 0, "r": 0}
    writers = set()
    for p in ps:
        if p.kind != "loop": continue
        for loc, v in p.store.items():
            if loc[0] != "o" or v.op != "with" or not isinstance(loc[1], T): continue
            for f, x in v.a[1]:
                if f != RF or x.op == "hv": continue
                writers.add(p.info)
                m = [mapbase(s.a[0]) for s in subterms(loc[1]) if s.op == "elem" and (mapbase(s.a[0]) in cmap or mapbase(s.a[0]) in rmap)] or \
                    [mapbase(s.a[1][0]) for s in subterms(loc[1]) if s.op == "call" and s.a[0] == "map.get"]
                b = m[0] if m else None
                num, den = (uncast(x.a[1]), uncast(x.a[2])) if x.op == "bin" and x.a[0] == "Div" else (None, None)
                own = num is not None and count_of(p, num, loc[1])
                g = den.a[0].a[0] if den is not None and den.op == "fld" and den.a[1] == LD + ".count" and den.a[0].op == "fld" and den.a[0].a[1] == SOME0 else None
                dk = g is not None and g.op == "call" and g.a[0] == "map.get" and mapbase(g.a[1][0]) is b
                key = g.a[1][1] if dk else None
                if b in cmap: nr["c"] += 1; good = key in defaults
                elif b in rmap:
                    nr["r"] += 1
                    ds = {t.a[2][li(RD, "default")] for t in kept}
                    good = key is not None and key.op == "fld" and key.a[1] == SOME0 and key.a[0] in ds
                else: good = False
                ctx.ob(k + ":ratio", own and dk and good, fn.where(), "the ratio of a language is not its number of strings divided by that of the default language: %s" % show(x)[:240])
    for p in ps:
        if p.kind == "loop" and p.info in writers:
            ctx.ob(k + ":ratio:each", any(loc[0] == "o" and v.op == "with" and any(f == RF and x.op != "hv" for f, x in v.a[1]) for loc, v in p.store.items()), fn.where(), "a language gets no ratio")
    ctx.ob(k + ":ratios", nr["c"] > 0 and nr["r"] > 0, fn.where(), "no ratios are kept for the components or the repository: %s" % nr)


def all_names(t, selfarg):
    """t is the collection of all keys of a map of self."""
    if t.op != "collect" and not (t.op == "call" and last(t.a[0]) == "collect"): return False
    it = t.a[0] if t.op == "collect" else t.a[1][0]
    while it.op == "iter" and it.a[0] in ("cloned", "copied"): it = it.a[1]
    if it.op != "iter" or it.a[0] != "src" or it.a[2] not in ("keys", "into_keys"): return False
    b, l = LR.flds(mapbase(it.a[1]))
    return b is selfarg and len(l) == 1


def uncast(t):
    while t.op == "cast": t = t.a[-1]
    return t


def count_of(p, t, obj):
    """t is the number of strings of obj."""
    if t.op == "fld" and t.a[1] == LD + ".count" and t.a[0] is obj: return True
    v = p.store.get(("o", obj))
    return v is not None and v.op == "with" and any(f == LD + ".count" and x is t for f, x in v.a[1])


def application(p, selfarg):
    """Whether the component of the iteration is known to be the application."""
    out = None
    for t, v in p.facts.items():
        if not isinstance(t, T) or not any(s.op == "c" and s.a[1] == "application" for s in subterms(t)) or over_components(t, selfarg) is None: continue
        if t.op == "eq" and t.a[0].op == "discr":
            c = t.a[1]
            if c.op == "c" and c.a[1] == 0: out = v == 1
            elif v == 1: out = False
        elif t.op == "discr": out = v == 0
        elif t.op == "eq" or t.op == "call": out = v == 1
    return out


def identifier_list(ctx, k, P, root):
    fn, e, a, ps = root
    rows = {p.info for p in ps if p.kind == "loop" for ev, lst, v in pushes(p, p.info) if registered(v) is not None and cell(registered(v)) is not None}
    ctx.ob(k + ":rows", bool(rows), fn.where(), "no languages are read")
    merge = {}
    for p in ps:
        if p.kind != "loop": continue
        for n in p.events:
            if n.kind != "next" or not n.loops or n.loops[-1] != p.info or not n.args or not (chain(n.args[0])[0] & rows): continue
            el = n.ret
            put = [(ev, lst) for ev, lst, v in pushes(p, p.info) if v is el]
            has = list(holding(p, el))
            for ev, lst in put: ctx.ob(k + ":once", has_el(ps, p, lst, el) is False, ev.where(), "a language is added to the list although it may be there already")
            ctx.ob(k + ":merged", len(put) + len(has) == 1, n.where(), "a language found for the identifier is not on the list")
            merge[p.info] = True
    n = 0
    for p in ps:
        if p.kind != "ret": continue
        st, v = split_result(p)
        if st != "ok": continue
        coll = next((y for y in v.a[2] if collected(y)), None) if v.op == "adt" else None
        ctx.ob(k + ":answer", coll is not None, fn.where(), "the languages of the identifier are not those collected: %s" % show(v)[:200])
        if coll is None: continue
        n += 1
        ls, args = chain(coll)
        grew = True
        while grew:
            grew = False
            for x in p.events:
                lid = x.loops[-1] if x.loops else None
                if x.kind in ("exhausted", "next") and x.args and (lid in ls or not lid and merge) and chain(x.args[0])[0] - ls: ls |= chain(x.args[0])[0]; grew = True
            for y in list(args):
                l2, a2 = chain(y)
                if l2 - ls: ls |= l2; args += a2; grew = True
        done = {(ev.ctx, ev.extra) for ev in p.events if ev.kind == "loop"} & rows
        ctx.ob(k + ":complete", done <= ls, fn.where(), "the languages of %d of the databases read are not on the list" % len(done - ls))
    ctx.ob(k + ":paths", n > 0, fn.where(), "no successful path")


def once_of(p, t, selfarg):
    """Field of self when t is the content of a once-cell of self (kept before or set on this path)."""
    t = mapbase(t)
    for s in subterms(t):
        if s.op in ("call", "inner") and any(isinstance(x, T) and LR.flds(x)[0] is selfarg and len(LR.flds(x)[1]) == 1 for x in (s.a[1] if s.op == "call" else s.a)): return s
    for ev in p.events:
        if ev.kind == "call" and ev.name and last(ev.name) == "set" and "Once" in ev.name and ev.args[1] is t: return ev
    return None


def nextval(p, loc):
    """Value of the location at the end of the path."""
    v = p.store.get(loc[0])
    for st in loc[1]:
        if v is None: return None
        if st[0] == "f" and v.op == "adt" and st[1] < len(v.a[2]): v = v.a[2][st[1]]
        else: return None
    return v


def totals(ctx, k, P, fn, ps, kinds, selfarg):
    """Counts: on every iteration over the languages of a component the number kept for the language is the sum of the numbers read, over every
    database that has the component. Totals: the values kept are 0 plus, per iteration over the languages (and over the components), that sum."""
    its = {}
    for p in ps:
        if p.kind != "loop": continue
        cs = [ev for ev in p.events if ev.kind == "call" and ev.name in kinds and kinds[ev.name] == "count" and ev.loops and ev.loops[-1] == p.info]
        if cs: its.setdefault(p.info, []).append((p, cs))
    ctx.ob(k + ":counted", bool(its), fn.where(), "no numbers of strings are read")
    lang = lambda t: t.op == "hv" and t.a[1][0][0] == "o"   # what was kept before for the language: starts at 0 (see fresh)
    def full(cs): return {mk("fld", ev.ret, OK0): 1 for ev in cs}
    for lid, xs in its.items():
        for p, cs in xs:
            w = cs[0].where()
            kept = [x for loc, v in p.store.items() if loc[0] == "o" and v.op == "with" for f, x in v.a[1] if f == LD + ".count" and any(contains(x, c) for c in full(cs))]
            if len(kept) < 2 and any(not y and within(ps, p, m, key) for m, key, y in mapfacts(p)): continue   # cannot happen: the entry was made before
            ctx.ob(k + ":counts", len(kept) >= 2, w, "the number of strings read for a language is not kept for the component and for the repository")
            for x in kept:
                c, d = lin_parts(x)
                ctx.ob(k + ":total:count", c == 0 and {t: n for t, n in d.items() if not lang(t)} == full(cs), w, "the number kept for a language is %s instead of the sum of the numbers read (%d)" % (show(x)[:200], len(cs)))
            fl = [t for t in p.facts if isinstance(t, T) and t.op == "fld" and over_components(t, selfarg) is not None and p.facts[t] == 1]
            ctx.ob(k + ":sources", len(cs) == len(fl), w, "the strings of a language are counted in %d databases although the component is in %d" % (len(cs), len(fl)))

    def grows(h):
        """The loop variable h of an iteration over the languages grows by exactly the numbers read."""
        for p, cs in its[h.a[0]]:
            x = nextval(p, h.a[1])
            if x is None: return False
            c, d = lin_parts(x)
            if c != 0 or d.get(h) != 1 or {t: n for t, n in d.items() if t is not h and not lang(t)} != full(cs): return False
        return {q.info for q in ps if q.kind == "loop"} >= {h.a[0]} and len([q for q in ps if q.kind == "loop" and q.info == h.a[0]]) == len(its[h.a[0]])

    def norm(x):
        """x with every such variable replaced by its initial value + SUM."""
        if x is None: return None, {}
        c, d = lin_parts(x)
        out = {}
        for t, n in d.items():
            if t.op == "hv" and t.a[0] in its and grows(t):
                c2, d2 = norm(t.a[2])
                c += n * c2
                for u, m in d2.items(): out[u] = out.get(u, 0) + n * m
                out["SUM"] = out.get("SUM", 0) + n
            else: out[t] = out.get(t, 0) + n
        return c, {t: n for t, n in out.items() if n}
    ncd = nrd = 0
    for p in ps:
        for ev in p.events:
            if ev.kind != "call" or not ev.name: continue
            if last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and ev.args[2].op == "adt" and ev.args[2].a[0] == CD:
                ncd += 1
                x = ev.args[2].a[2][fieldno(P, CD, "total_strings")]
                ctx.ob(k + ":total:ComponentDetails", norm(x) == (0, {"SUM": 1}), ev.where(), "the total of a component is %s instead of the sum over its languages" % show(x)[:200])
            if last(ev.name) == "set" and "Once" in ev.name:
                for t in subterms(ev.args[1]):
                    if t.op != "adt" or t.a[0] != RD: continue
                    nrd += 1
                    x = t.a[2][fieldno(P, RD, "total_strings")]
                    okk = x.op == "hv" and x.a[2].op == "c" and x.a[2].a[1] == 0
                    qs = [q for q in ps if q.kind == "loop" and okk and q.info == x.a[0]]
                    for q in qs: okk = okk and norm(nextval(q, x.a[1])) == (0, {x: 1, "SUM": 1})
                    ctx.ob(k + ":total:RepositoryDetails", okk and bool(qs), ev.where(), "the total of the repository is not the sum of the totals of its components: %s" % (show(nextval(qs[0], x.a[1]))[:200] if qs else show(x)[:200]))
    ctx.ob(k + ":totals", ncd > 0 and nrd > 0, fn.where(), "the totals are not kept")


# ---------------------------------------------------------------- panics

def okbool(p, t, v): return p.facts.get(t) == v


def mapfacts(p):
    """[(map, key, known present?)]"""
    out = []
    for t, v in p.facts.items():
        if isinstance(t, T) and t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] == "map.get" and v in (0, 1):
            out.append((t.a[0].a[1][0], t.a[0].a[1][1], v == 1))
    return out


def puts(p):
    """[(map, key)] known to be present at the end of the path, by insertion or by a look-up."""
    out = [(m, k) for m, k, y in mapfacts(p) if y]
    for ev in p.events:
        if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert", "or_insert_with", "or_default") and len(ev.args) >= 2 and "Map" in ev.name: out.append((ev.args[0], ev.args[1]))
    return out


def iteration(p):
    """Events of the last iteration of the loop the path closes."""
    i = max([i for i, ev in enumerate(p.events) if ev.kind == "loop" and (ev.ctx, ev.extra) == p.info] or [0])
    return p.events[i:]


def within(ps, p, m, k, depth=0):
    """k is a key of map m on path p."""
    b = mapbase(m)
    if depth > 4: return False
    if any(y and key is k and mapbase(mm) is b for mm, key, y in mapfacts(p)): return True
    if any(mapbase(mm) is b and key is k for mm, key in puts(p)): return True
    if k.op == "elem":
        v = k.a[0]
        base_ = mapbase(v)
        okk = True
        if base_.op != "arr" or base_.a[0]:
            # every element of the source went through a loop that puts it into the map
            srcs = {ev.loops[-1] for ev in p.events if ev.kind in ("next", "exhausted") and ev.args and mapbase(ev.args[0]) is base_ and ev.loops}
            done = False
            for lid in srcs:
                it = [q for q in ps if q.kind == "loop" and q.info == lid]
                if not it: continue
                if all(any(mapbase(mm) is b and key.op == "elem" and mapbase(key.a[0]) is base_ for mm, key in puts(q)) for q in it): done = True
            okk = done
        w = v
        while okk and w.op == "upd":
            if w.a[1] == "loop":
                for q in [q for q in ps if q.kind == "loop" and q.info == w.a[2]]:
                    for ev in iteration(q):
                        if ev.kind == "call" and ev.name == "alloc::Vec::push" and mapbase(ev.args[0]) is base_ and not within_simple(q, b, ev.args[1]): okk = False
            elif w.a[1] == "push":
                okk = within(ps, p, m, w.a[3][0], depth + 1)
            else: okk = False
            w = w.a[0]
        if okk: return True
    if k.op == "hv" or (k.op == "fld" and k.a[1] == SOME0 and k.a[0].op == "hv"):
        h = k if k.op == "hv" else k.a[0]
        lid, loc = h.a[0], h.a[1]
        nx = []
        for q in ps:
            if q.kind == "loop" and q.info == lid:
                x = q.store.get(loc[0])
                for s in loc[1]:
                    if x is None: break
                    if x.op == "adt" and s[0] == "f": x = x.a[2][s[1]]
                    else: x = None
                nx.append((q, x))
        if nx and all(x is not None and (x is h or is_none(x) or within(ps, q, m, pay(x) if is_some(x) else mk("fld", x, SOME0), depth + 1)) for q, x in nx): return True
    # the key is in another map whose keys are all put into this one
    for mm, key, y in mapfacts(p):
        if y and key is k and mapbase(mm) is not b and subset(ps, mapbase(mm), b): return True
    return False


def within_simple(q, b, k): return any(mapbase(mm) is b and key is k for mm, key in puts(q))


def subset(ps, b1, b2):
    """Every key put into map b1 is also put into map b2 on the same way through the code."""
    n = 0
    for q in ps:
        if q.kind == "panic": continue
        for ev in q.events:
            if ev.kind == "call" and ev.name and last(ev.name) == "insert" and len(ev.args) == 3 and mapbase(ev.args[0]) is b1:
                n += 1
                if not within_simple(q, b2, ev.args[1]): return False
            if ev.kind == "call" and ev.name and "Map::" in ev.name and last(ev.name) in ("remove", "clear", "retain", "drain", "remove_entry") and mapbase(ev.args[0]) is b2: return False
    return n > 0


def versions(ctx, cfg):
    """Texts a checked schema version can have."""
    out = set()
    for v in schema_fns(ctx.program(cfg)):
        r = prun(ctx, cfg, v)
        if r is None: return set()
        for p in r[3]:
            st, x = split_result(p) if p.kind == "ret" else (None, None)
            if st != "ok": continue
            c = x if x.op == "c" else p.facts.get(("const", x))
            out.add(c.a[1] if c is not None and c.op == "c" else None)
    return out


def c23(ctx):
    """No request panics."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        R = roots(ctx, cfg)
        vs = versions(ctx, cfg)
        ctx.ob("%s:versions" % cfg, bool(vs) and None not in vs, "crates/provider/sqlite3/src/provider.rs", "the accepted schema versions are not constants: %s" % vs)
        have, cfield, kfield, ok_reg, why = registration(ctx, cfg)
        ctx.ob("%s:registration" % cfg, ok_reg, R["try_new"][0].where() if "try_new" in R else "", why)
        cells = set_cells(ctx, cfg)
        for name, (fn, e, a, ps) in R.items():
            k = "%s:%s" % (cfg, last(name))
            ctx.ob(k + ":analysed", True, fn.where(), "")
            for p in ps:
                if p.kind != "panic": continue
                w = "%s:%s" % (p.info[2].file if hasattr(p.info[2], "file") else "", p.info[3])
                okk, why = excused(ctx, cfg, P, name, fn, e, a, ps, p, have, cfield, kfield, vs, cells)
                ctx.ob(k + ":panic", okk, where_of(p, fn), "a request can panic: %s (%s)" % (p.info[0], why))


def where_of(p, fn):
    for ev in reversed(p.events):
        if ev.kind == "call" and ev.fn.key.startswith("i18n_"): return ev.where()
    return fn.where()


def registration(ctx, cfg):
    """have: source -> flags true when it is used; whether try_new sets such a flag only together with the connection."""
    R = roots(ctx, cfg)
    have = {"aio": None, "own": None}
    kfield = set()
    for name in LOOKUPS:
        if name not in R: continue
        fn, e, a, ps = R[name]
        for p in ps:
            f = flags(p, a[0], a[1])
            for i, s, ev in consult(p, a[1], a[0]):
                if s in have:
                    t = {x for x, v in f.items() if v == 1}
                    have[s] = t if have[s] is None else have[s] & t
                    for t in subterms(ev.args[0]):
                        if t.op == "call" and t.a[0] == "map.get":
                            b, l = LR.flds(mapbase(t.a[1][0]))
                            if b is a[0]: kfield.add(l[0])
    cfield = {x[0][0] for s in have.values() for x in s or ()}
    if len(cfield) != 1 or len(kfield) != 1 or "try_new" not in R: return have, None, None, False, "where components and connections are kept is not understood"
    cfield, kfield = cfield.pop(), kfield.pop()
    fn, e, a, ps = R["try_new"]
    P = ctx.program(cfg)
    names = [f[0] for f in P.adts[ST]["variants"][0][2]]
    cm, km = set(), set()
    for p in ps:
        st, v = split_result(p) if p.kind == "ret" else (None, None)
        if st == "ok" and v.op == "adt" and v.a[0] == ST:
            cm.add(mapbase(v.a[2][names.index(cfield.split(".")[-1])])); km.add(mapbase(v.a[2][names.index(kfield.split(".")[-1])]))
    if len(cm) != 1 or len(km) != 1: return have, cfield, kfield, False, "try_new does not build the collections itself"
    cm, km = cm.pop(), km.pop()
    proj = {s: {x[1][-1] if len(x[1]) == 1 else x[1] for x in have[s] or ()} for s in have}
    idx = {}
    for s in have:
        n = {int(re.findall(r"(\d+)$", str(y))[0]) for y in proj[s] if re.findall(r"(\d+)$", str(y))}
        if len(n) != 1: return have, cfield, kfield, False, "the flag of %s is not understood: %s" % (s, have[s])
        idx[s] = n.pop()
    # every way that sets a flag
    inner = {}
    for p in ps:
        if p.kind == "panic" or p.kind == "ret": continue
        outer = p.info
        kept = [ev.args[1] for ev in p.events if ev.kind == "call" and ev.name and last(ev.name) == "insert" and len(ev.args) == 3 and mapbase(ev.args[0]) is km]
        sets = []
        for ev in p.events:
            if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and mapbase(ev.args[0]) is cm:
                v = ev.args[2]
                if v.op not in ("tup", "adt"): return have, cfield, kfield, False, "a component is registered with %s" % show(v)
                el = v.a[0] if v.op == "tup" else v.a[2]
                for s in idx:
                    x = el[idx[s]]
                    if not (x.op == "c" and x.a[1] in (0, False)): sets.append((s, ev.args[1], ev))
        for loc, v in p.store.items():
            if loc[0] == "o" and v.op == "with" and contains(loc[1], cm):
                for f, x in v.a[1]:
                    for s in idx:
                        if str(f).endswith(str(idx[s])) and not (x.op == "c" and x.a[1] == 0) and x.op != "hv":
                            key = loc[1].a[0].a[1][1] if loc[1].op == "fld" and loc[1].a[0].op == "call" else None
                            sets.append((s, key, None))
        for s, key, ev in sets:
            if s == "own":
                if key is None or not any(same(p, x, key) for x in kept): return have, cfield, kfield, False, "a component is registered as having its own database without its connection being kept"
            else:
                if any(x.op == "c" and x.a[1] == "__all_in_one__" for x in kept): continue
                # set in an inner loop: the ways that complete the enclosing loop keep the connection
                enc = [q for q in ps if q.kind == "loop" and q.info != p.info and any(e2.kind == "loop" and (e2.ctx, e2.extra) == p.info for e2 in q.events)]
                bad = [q for q in enc if not any(e2.kind == "call" and e2.name and last(e2.name) == "insert" and len(e2.args) == 3 and mapbase(e2.args[0]) is km and e2.args[1].op == "c" and e2.args[1].a[1] == "__all_in_one__" for e2 in q.events)]
                if not enc or bad: return have, cfield, kfield, False, "a component is registered as being in the common database without the connection being kept"
        for ev in p.events:
            if ev.kind == "call" and ev.name and "Map::" in ev.name and last(ev.name) in ("remove", "clear", "retain", "drain") and mapbase(ev.args[0]) in (km, cm): return have, cfield, kfield, False, "a connection is dropped again"
    return have, cfield, kfield, True, "components are registered together with their connections"


def set_cells(ctx, cfg):
    """Fields (once-cells) that every successful way through the builders sets."""
    P = ctx.program(cfg)
    out = {}
    for b in builders(P):
        r = prun(ctx, cfg, b, readers(P))
        if r is None: continue
        fn, e, a, ps = r
        s = None
        for p in ps:
            st, v = split_result(p) if p.kind == "ret" else (None, None)
            if st != "ok": continue
            x = {LR.flds(ev.args[0])[1][0] for ev in p.events if ev.kind == "call" and ev.name and "Once" in ev.name and last(ev.name) == "set" and LR.flds(ev.args[0])[1]}
            s = x if s is None else s & x
        out[b] = s or set()
    return out


def last_once(p):
    """The once-cell that was read last."""
    for ev in reversed(p.events):
        if ev.kind == "call" and ev.name and "Once" in ev.name and last(ev.name) == "get": return LR.flds(ev.args[0])[1]
    return None


def excused(ctx, cfg, P, name, fn, e, a, ps, p, have, cfield, kfield, vs, cells):
    what = p.info[0]
    if "unwrap_failed" in what and "result" in what: 
        import commands as CR
        return CR.poison(p), "a failed result"
    if "todo" in what or "unreachable" in what or "panic" in what and "unwrap" not in what:
        # only for a schema version that is never accepted
        for t, v in p.facts.items():
            if isinstance(t, T) and t.op == "eq" and t.a[1].op == "c" and t.a[1].a[1] in vs and v == 0:
                l = [s for s in subterms(t.a[0]) if s.op == "call" and s.a[0] == "map.get" and LR.flds(mapbase(s.a[1][0]))[1] == [kfield]]
                if l and vs == {t.a[1].a[1]}: return True, ""
        return False, "reached with an accepted schema version"
    # an absent value was unwrapped: the last look-up before the panic
    gets = [ev for ev in p.events if ev.kind == "call" and ev.name and re.search(r"Map::(get|get_mut|get_key_value)$", ev.name)]
    for ev in gets[-1:]:
        m, k = ev.args[0], ev.args[1]
        if p.facts.get(mk("discr", ev.ret, OPT)) != 0: continue
        if any(x.kind == "call" and x.name and "Map::" in x.name and last(x.name) in ("remove", "clear", "retain", "drain", "remove_entry") and mapbase(x.args[0]) is mapbase(m) for q in ps for x in q.events): continue
        b, l = LR.flds(mapbase(m))
        if b is a[0] and kfield is not None and l == [kfield]:
            comp = a[1]
            f = flags(p, a[0], comp)
            s = "aio" if k.op == "c" and k.a[1] == "__all_in_one__" else ("own" if same(p, k, comp) else None)
            if s and any(f.get(x) == 1 for x in have[s] or ()): return True, ""
            return False, "a connection that may not exist is used"
        if within(ps, p, m, k): return True, ""
        return False, "a value that may be absent is unwrapped"
    for ev in p.events:
        if ev.kind == "call" and ev.name and "Once" in ev.name and last(ev.name) == "get":
            fl = LR.flds(ev.args[0])[1]
            # a value that was seen there stays there
            if ev.ret is not None and p.facts.get(mk("discr", ev.ret, OPT)) == 1 and last_once(p) == fl: return True, ""
            for b in p.events:
                if b.kind == "call" and b.name in cells and fl and fl[0] in cells[b.name]: return True, ""
                if b.kind == "call" and b.name and "Once" in b.name and last(b.name) == "set" and LR.flds(b.args[0])[1] == fl: return True, ""
    return False, "a value that may be absent is unwrapped"


# ---------------------------------------------------------------- opening

def c24(ctx):
    """What is opened, and under which name."""
    for cfg in PCFG:
        P = ctx.program(cfg)
        R = roots(ctx, cfg)
        if "try_new" not in R: continue
        fn, e, a, ps = R["try_new"]
        k = "%s:try_new" % cfg
        sf = schema_fns(P)
        ctx.ob(k + ":verifier", len(sf) >= 1, fn.where(), "no function that checks the schema of a database")
        names = [f[0] for f in P.adts[ST]["variants"][0][2]]
        have, cfield, kfield, okr, why = registration(ctx, cfg)
        ctx.ob(k + ":registration", okr, fn.where(), why)
        cm = km = None
        for p in ps:
            st, v = split_result(p) if p.kind == "ret" else (None, None)
            if st == "ok" and v.op == "adt" and v.a[0] == ST and cfield:
                cm, km = mapbase(v.a[2][names.index(cfield.split(".")[-1])]), mapbase(v.a[2][names.index(kfield.split(".")[-1])])
                reg = v.a[2][names.index("language_tag_registry")] if "language_tag_registry" in names else None
                ctx.ob(k + ":registry", any(x is a[1] for x in v.a[2]), fn.where(), "the registry given by the caller must be the one used")
                # a repository without a component is refused
                emp = any(isinstance(t, T) and ((t.op == "call" and last(t.a[0]) == "is_empty" and mapbase(t.a[1][0]) is cm and y == 0) or (t.op == "eq" and t.a[0].op == "len" and mapbase(t.a[0].a[0]) is cm and y == 0)) for t, y in p.facts.items())
                ctx.ob(k + ":nonempty", emp, fn.where(), "a directory without a single component must be refused")
                ctx.ob(k + ":directory", any(isinstance(t, T) and t.op == "call" and last(t.a[0]) == "is_dir" and y == 1 for t, y in p.facts.items()), fn.where(), "a path that is not a directory must be refused")
                ctx.ob(k + ":whole", any(ev.kind == "exhausted" for ev in p.events), fn.where(), "the directory is not read to its end")
        for p in ps:
            st, v = split_result(p) if p.kind == "ret" else (None, None)
            if st == "err" and v.op == "adt":
                vn = variant_name(P, v)
                if vn == "NotDirectory": ctx.ob(k + ":notdirectory", any(isinstance(t, T) and t.op == "call" and last(t.a[0]) == "is_dir" and y == 0 for t, y in p.facts.items()), fn.where(), "a directory is reported not to be one")
                if vn == "NoSqlite3Files": ctx.ob(k + ":nofiles", any(isinstance(t, T) and ((t.op == "call" and last(t.a[0]) == "is_empty" and y == 1) or (t.op == "eq" and t.a[0].op == "len" and y == 1)) for t, y in p.facts.items()), fn.where(), "files are reported missing although components are known")
            for i, ev in enumerate(p.events):
                if ev.kind == "call" and ev.name and re.match(r"rusqlite::Connection::open", ev.name):
                    path = ev.args[0]
                    ext = [t for t, y in p.facts.items() if isinstance(t, T) and t.op == "eq" and y == 1 and any(s.op == "call" and last(s.a[0]) == "extension" for s in subterms(t)) and any(s.op == "c" and s.a[1] == "sqlite3" for s in subterms(t))]
                    ctx.ob(k + ":extension", bool(ext), ev.where(), "a file is opened without its name ending in .sqlite3")
                    ent = [s for s in subterms(path) if s.op == "elem"]
                    ctx.ob(k + ":entry", bool(ent) and any(contains(t, s) for t in ext for s in ent) or not ext, ev.where(), "the file that is opened is not the one whose name was examined: %s" % show(path)[:200])
                    ctx.ob(k + ":plain", path.op == "call" and last(path.a[0]) == "path" and path.a[1][0].op == "fld" and path.a[1][0].a[0].op == "elem", ev.where(), "the file that is opened is not the entry of the directory: %s" % show(path)[:200])
                if ev.kind == "call" and ev.name and last(ev.name) == "insert" and len(ev.args) == 3 and km is not None and mapbase(ev.args[0]) is km:
                    key, v = ev.args[1], ev.args[2]
                    val_ = v.a[0][0] if v.op == "tup" else v
                    opens = [x for x in p.events[:i] if x.kind == "call" and x.name and re.match(r"rusqlite::Connection::open", x.name)]
                    vers = [x for x in p.events[:i] if x.kind == "call" and x.name in sf and p.facts.get(mk("discr", x.ret, RES)) == 0]
                    ctx.ob(k + ":verified", bool(opens) and bool(vers) and any(contains(x.args[0], opens[-1].ret) for x in vers), ev.where(), "a database is used without its schema having been checked")
                    ver = v.a[0][1] if v.op == "tup" and len(v.a[0]) > 1 else None
                    ctx.ob(k + ":version", ver is not None and bool(vers) and ver is mk("fld", vers[-1].ret, OK0), ev.where(), "the schema version kept is not the one found")
                    ctx.ob(k + ":connection", bool(opens) and (contains(val_, opens[-1].ret) or val_ is opens[-1].args[0]), ev.where(), "the connection kept is not the one to the file: %s" % show(val_)[:200])
                    stem = [s for s in subterms(key) if s.op == "call" and last(s.a[0]) == "file_stem"]
                    isaio = any(isinstance(t, T) and aio_fact(t, y) for t, y in p.facts.items())
                    if key.op == "c":
                        ctx.ob(k + ":aioname", key.a[1] == "__all_in_one__" and isaio, ev.where(), "the common database must be the file named __all_in_one__")
                    else:
                        ctx.ob(k + ":name", bool(stem) and bool(opens) and stem[0].a[1][0] is opens[-1].args[0], ev.where(), "a database must be kept under the name of its file: %s" % show(key)[:200])
                if ev.kind == "call" and ev.name and last(ev.name) in ("insert", "or_insert") and len(ev.args) == 3 and cm is not None and mapbase(ev.args[0]) is cm:
                    key = ev.args[1]
                    stem = [s for s in subterms(key) if s.op == "call" and last(s.a[0]) == "file_stem"]
                    cells = [(cell(key), p)]
                    if key.op == "elem" and gathered(key.a[0]): cells = [(cell(x), q) for x, q in pushed(ps, key.a[0])]
                    okk = bool(stem) if cells == [(None, p)] else bool(cells)
                    for c, q in cells if not stem else ():
                        x = row_exec(c[0], execs(q)) if c is not None else None
                        okk = okk and x is not None and column(ctx, cfg, x, c[1], None) == "identifier"
                    ctx.ob(k + ":component", okk, ev.where(), "a component must be registered under the name of its file or of its row in the common database, not %s" % show(key)[:200])
        # every row of the common database registers its component
        for p in ps:
            if p.kind == "loop":
                nx = [ev for ev in iteration(p) if ev.kind == "call" and ev.name == "rusqlite::Rows::next"]
                if nx and cm is not None and p.facts.get(mk("discr", mk("fld", nx[-1].ret, OK0), OPT)) == 1:
                    row = mk("fld", mk("fld", nx[-1].ret, OK0), SOME0)
                    got = [1 for mm, key in puts(p) if mapbase(mm) is cm and contains(key, row)]
                    # or it is noted in a list, each element of which is registered
                    for ev in iteration(p):
                        if ev.kind == "call" and ev.name and ev.name.startswith("alloc::Vec::push") and contains(ev.args[1], row) and registers_all(ps, ev.args[0], cm): got.append(1)
                    ctx.ob(k + ":everycomponent", bool(got), nx[-1].where(), "a component of the common database is not registered")


def gathered(v):
    """Names of a list that grew in loops: the loops and where in them it is kept."""
    return {(x.a[2], x.a[3]) for x in spine(v) if x.op == "upd" and x.a[1] == "loop" and x.a[3]}


def spine(v):
    while v.op == "upd":
        yield v
        v = v.a[0]


def pushed(ps, v):
    """[(element, path)] that are added to the list in the loops it grew in."""
    g = gathered(v)
    return [(ev.args[1], p) for p in ps for ev in p.events if ev.kind == "call" and ev.name and ev.name.startswith("alloc::Vec::") and last(ev.name) in ("push", "insert") and len(ev.args) > 1 and gathered(ev.args[0]) & g]


def registers_all(ps, v, cm):
    """Every element of the list is registered: a loop over all of it puts each into the map."""
    g, done = gathered(v), False
    for p in ps:
        over = [ev for ev in p.events if ev.kind == "next" and gathered(ev.args[0]) & g]
        if not over: continue
        if any(ev.extra.a[0] not in ("src", "cloned", "copied") for ev in over): return False
        if p.kind == "loop" and any(ev is over[-1] for ev in iteration(p)):
            if any(mapbase(mm) is cm and contains(key, over[-1].ret) for mm, key in puts(p)): done = True
            else: return False
        elif p.kind == "loop" or p.kind == "ret" and split_result(p)[0] == "ok":
            if not any(ev.kind == "exhausted" and gathered(ev.args[0]) & g for ev in p.events): return False
    return done


def aio_fact(t, y):
    if t.op == "eq" and y == 1 and any(s.op == "c" and s.a[1] == "__all_in_one__" for s in t.a): return True
    return t.op in ("call", "discr") and any(s.op == "c" and s.a[1] == "__all_in_one__" for s in subterms(t))


# ---------------------------------------------------------------- schema

def known(p, t):
    """Constant value of t on p."""
    if t.op == "c": return t.a[1]
    c = p.facts.get(("const", t))
    if c is not None and c.op == "c": return c.a[1]
    v = p.facts.get(t)
    if isinstance(v, int): return v
    iv = p.facts.get(("iv", t))
    if iv and iv[0] is not None and iv[0] == iv[1]: return iv[0]
    for k, v in p.facts.items():
        if isinstance(k, T) and k.op == "eq" and v == 1 and k.a[0] is t and k.a[1].op == "c": return k.a[1].a[1]
    return None


def c25(ctx):
    """A database is accepted only with the tables and columns of the schema."""
    cols = columns()
    ctx.ob("schema", len(cols) >= 6, "crates/provider/sqlite3/l10n/schema.sql", "tables of the schema: %s" % sorted(cols))
    for cfg in PCFG:
        P = ctx.program(cfg)
        for v in schema_fns(P):
            r = prun(ctx, cfg, v)
            if r is None: continue
            fn, e, a, ps = r
            k = "%s:%s" % (cfg, last(v))
            byt = {}
            for p in ps:
                for x in execs(p):
                    if x.sql is None or x.sql.op != "c":
                        ctx.ob(k + ":text", False, x.ev.where(), "the query is not constant"); continue
                    m = re.match(r"(?i)\s*select (.+) from pragma_table_info\('(\w+)'\)", x.sql.a[1])
                    if m: byt.setdefault(m.group(2), []).append((p, x, m.group(1)))
            blame(ctx, k, fn, P, ps, cols)
            oks = [p for p in ps if p.kind == "ret" and split_result(p)[0] == "ok"]
            ctx.ob(k + ":accepts", bool(oks), fn.where(), "no database is ever accepted")
            for p in oks:
                x = split_result(p)[1]
                ctx.ob(k + ":version", known(p, x) == "1.0" and version_read(p, ps, x), fn.where(), "a database is accepted without its schema version being 1.0")
                for t, cs in cols.items():
                    if t == "metadata": continue
                    ent = [x for q, x, _ in byt.get(t, []) if q is p]
                    ctx.ob(k + ":table:" + t, bool(ent), fn.where(), "a database is accepted without a look at the columns of table %s" % t)
                    if not ent: continue
                    # number of columns seen
                    n = counted(p, ps, ent[0])
                    ctx.ob(k + ":missing:" + t, n is not None and n >= len(cs), ent[0].ev.where(), "a database is accepted although table %s may lack columns (at least %s of %d are there)" % (t, n, len(cs)))
            for t, cs in cols.items():
                if t == "metadata": continue
                seen = set()
                for p, x, sel in byt.get(t, []):
                    if p.kind != "loop": continue
                    nx = [ev for ev in iteration(p) if ev.kind == "call" and ev.name == "rusqlite::Rows::next" and contains(ev.args[0], x.q)]
                    if not nx: continue
                    row = mk("fld", mk("fld", nx[-1].ret, OK0), SOME0)
                    cells = {}
                    for ev in p.events:
                        if ev.kind == "call" and ev.name == "rusqlite::Row::get" and ev.args[0] is row and ev.args[1].op == "c": cells[norm(ev.args[1].a[1])] = mk("fld", ev.ret, OK0)
                    if 0 not in cells: ctx.ob(k + ":position:" + t, False, nx[-1].where(), "the position of a column of %s is not examined" % t); continue
                    cid = known(p, cells[0])
                    if cid is None:
                        ex = p.facts.get(cells[0])
                        exs = set(ex) if isinstance(ex, frozenset) else set()
                        exs |= {q.a[1].a[1] for q, y in p.facts.items() if isinstance(q, T) and q.op == "eq" and y == 0 and q.a[0] is cells[0] and q.a[1].op == "c"}
                        iv = p.facts.get(("iv", cells[0]))
                        if iv and iv[0]: exs |= set(range(iv[0]))
                        miss = [i for i in range(len(cs)) if i not in exs]
                        ctx.ob(k + ":unchecked:" + t, not miss, nx[-1].where(), "columns %s of table %s are not checked" % ([cs[i][0] for i in miss], t))
                        continue
                    if cid >= len(cs): continue
                    seen.add(cid)
                    nm, ty, nn, pk = cs[cid]
                    for i, want, what in ((1, nm, "name"), (2, ty, "type"), (3, nn, "NOT NULL"), (5, pk, "PRIMARY KEY")):
                        got = known(p, cells[i]) if i in cells else None
                        ctx.ob("%s:column:%s.%s" % (k, t, what), got == want, nx[-1].where(), "column %d of table %s is accepted with %s %s instead of %r" % (cid, t, what, repr(got) if got is not None else "unchecked", want))
                ctx.ob(k + ":columns:" + t, seen == set(range(len(cs))), fn.where(), "columns of table %s that are checked: %s" % (t, sorted(seen)))


def differs(p, x, want):
    """x is known not to be want."""
    k = known(p, x)
    if k is not None: return k != want
    v = p.facts.get(x)
    if isinstance(v, frozenset) and want in v: return True
    iv = p.facts.get(("iv", x))
    if iv and isinstance(want, int) and (iv[0] is not None and want < iv[0] or iv[1] is not None and want > iv[1]): return True
    return any(isinstance(q, T) and q.op == "eq" and y == 0 and x in q.a[:2] and any(z.op == "c" and z.a[1] == want for z in q.a[:2]) for q, y in p.facts.items())


def blame(ctx, k, fn, P, ps, cols):
    """The error for a database that is not accepted names the table, the column and what was expected of it."""
    ty = next((n for n in P.adts if n.endswith("::SchemaError")), None)
    if ty is None: return
    for p in ps:
        if p.kind != "ret" or split_result(p)[0] != "err": continue
        x = split_result(p)[1]
        if x.op != "adt" or x.a[0] != ty: continue
        v = P.adts[ty]["variants"][x.a[1]][0]
        said = [y.a[1] if y.op == "c" else None for y in x.a[2]]
        if v == "MissingTable": ctx.ob(k + ":blame:table", said[0] is None or said[0] in cols, fn.where(), "a table %s is said to be missing that the schema does not have" % said[0])
        if v == "MissingTable" and said[0] in cols:
            for h, w in p.facts.items():
                if not (isinstance(h, T) and h.op == "hv" and w == 0): continue
                init, nx = hvinfo(ps, h)
                for q, n in nx:
                    # a note that the table was found is made for the table of that name
                    about = {y: z for f, z in q.facts.items() if isinstance(f, T) and f.op == "eq" for y in f.a[:2] if isinstance(y, T) and y.op == "c" and y.a[1] in cols}
                    if init is cint(0) and about and (n is cint(1) or n is h):
                        ctx.ob(k + ":blame:found", all((z == 1) == (n is cint(1)) for y, z in about.items() if y.a[1] == said[0]), fn.where(), "table %s is said to be missing although a table of that name is there" % said[0])
        if v == "ColumnDefault": ctx.ob(k + ":blame:default", said[2] in (None, "NULL"), fn.where(), "a column is said to have no default value %s, while it has to have none" % said[2])
        if v == "Version": ctx.ob(k + ":blame:version", said[1] in (None, "1.0"), fn.where(), "version %s is said to be expected" % said[1])
        if not v.startswith("Column") and v != "MissingColumn": continue
        looked = [(m.group(1), e) for e in execs(p) for m in [re.search(r"(?i)pragma_table_info\('(\w+)'\)", e.sql.a[1]) if e.sql is not None and e.sql.op == "c" else None] if m]
        if not looked or looked[-1][0] not in cols: continue
        t, where = looked[-1][0], looked[-1][1].ev.where()
        cs = cols[t]
        ctx.ob("%s:blame:%s" % (k, t), said[0] in (None, t), where, "a fault of table %s is reported for table %s" % (t, said[0]))
        gets = [ev for ev in p.events if ev.kind == "call" and ev.name == "rusqlite::Row::get" and contains(ev.args[0], looked[-1][1].q) and ev.args[1].op == "c"]
        cells = {norm(ev.args[1].a[1]): mk("fld", ev.ret, OK0) for ev in gets}
        cid = known(p, cells[0]) if 0 in cells else None
        if cid is None:
            if v == "MissingColumn" and said[1] is not None: ctx.ob("%s:blame:%s" % (k, t), said[1] in [c[0] for c in cs], where, "column %s is said to be missing, which table %s has not" % (said[1], t))
            # the first one that is not there
            y = x.a[2][1]
            lists = [z for z in subterms(y) if z.op == "arr" and z.a[0] and all(w.op == "c" and isinstance(w.a[1], str) for w in z.a[0])]
            if v == "MissingColumn" and len(lists) == 1: ctx.ob("%s:blame:%s" % (k, t), [w.a[1] for w in lists[0].a[0]] == [c[0] for c in cs], where, "a missing column of table %s is reported from the names %s" % (t, [w.a[1] for w in lists[0].a[0]]))
            continue
        if cid >= len(cs): continue
        nm, tp, nn, pk = cs[cid]
        ctx.ob("%s:blame:%s.%s" % (k, t, nm), said[1] in (None, nm), where, "a fault of column %s of table %s is reported for column %s" % (nm, t, said[1]))
        if v != "ColumnProperty" or said[2] is None: continue
        wrong = [i for i, w in ((1, nm), (2, tp), (3, nn), (5, pk)) if i in cells and differs(p, cells[i], w)]
        text = {2: tp, 3: "NOT NULL" if nn else "NULL", 5: "PRIMARY KEY" if pk else ""}
        if len(wrong) == 1 and wrong[0] in text:
            ctx.ob("%s:blame:%s.%s:%d" % (k, t, nm, wrong[0]), said[2] == text[wrong[0]], where, "column %s of table %s is said not to be %r, while it is not %r" % (nm, t, said[2], text[wrong[0]]))


def norm(i): return {"cid": 0, "name": 1, "type": 2, "notnull": 3, "dflt_value": 4, "pk": 5}.get(i, i)


def version_read(p, ps, x):
    """x is read from the metadata."""
    if x.op == "c":
        return any(isinstance(t, tuple) and t[0] == "const" and v is x and version_read(p, ps, t[1]) for t, v in p.facts.items())
    c = cell(x)
    if c is not None: return "metadata" in show_sql(c[0])
    if x.op == "hv":
        init, nx = hvinfo(ps, x)
        return bool(nx) and all(n is not None and cell(n) is not None and "metadata" in show_sql(cell(n)[0]) for q, n in nx) and not (init is not None and init.op == "c" and init.a[1] == "1.0")
    return False


def show_sql(row): return " ".join(s.a[1] for s in subterms(row) if s.op == "c" and isinstance(s.a[1], str))


def counted(p, ps, x):
    """Least number of rows of the execution x known on p."""
    best = None
    for t, v in p.facts.items():
        h = None
        if isinstance(t, tuple) and t[0] == "iv" and v[0] is not None: h, lo = t[1], v[0]
        elif isinstance(t, tuple) and t[0] == "const" and v.op == "c" and isinstance(v.a[1], int): h, lo = t[1], v.a[1]
        if h is None or not isinstance(h, T): continue
        c, d = lin_parts(h)
        hs = [y for y in d if y.op == "hv"]
        if len(d) == 1 and len(hs) == 1 and d[hs[0]] == 1:
            init, nx = hvinfo(ps, hs[0])
            if not nx or init is None or init.op != "c": continue
            # one more for every row, in the loop over the rows of x
            okk = all(n is not None and n is add(hs[0], cint(1)) and any(ev.kind == "call" and ev.name == "rusqlite::Rows::next" and contains(ev.args[0], x.q) for ev in iteration(q)) for q, n in nx)
            if okk: best = max(best or 0, lo - init.a[1] - c)
        elif h.op == "len":
            v2 = h.a[0]
            if v2.op == "upd" and v2.a[1] == "loop" and mapbase(v2).op == "arr" and not mapbase(v2).a[0]:
                its = [q for q in ps if q.kind == "loop" and q.info == v2.a[2]]
                if its and all(any(ev.kind == "call" and ev.name == "rusqlite::Rows::next" and contains(ev.args[0], x.q) for ev in iteration(q)) for q in its): best = max(best or 0, lo)
    return best
