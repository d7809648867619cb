"""Lock discipline of the interior-mutable types, and thread-safety witnesses of the sync build."""
import json, os, subprocess
from common import *
import infra
import localiser as LR

SQL = "i18n_provider_sqlite3::LocalisationProviderSqlite3"
TYPES = ("i18n_utility::LanguageTagRegistry", "i18n_localiser::CommandRegistry", "i18n_localiser::Localiser",
         "i18n_provider_sqlite3::LocalisationProviderSqlite3")


def owner_methods(P, ty):
    """Functions callable from outside that work on a shared value of the type (inherent and trait)."""
    out = []
    for n, l in sorted(P.bynice.items()):
        for f in l:
            if "{closure" in n or f.kind != "fn" or f.derived: continue
            if n.startswith(ty + "::") and (f.pub or ty == SQL): out.append(f)
            elif f.traitimpl and f.argc >= 1 and selfty(f) == ty: out.append(f)
    return out


def selfty(f):
    t = f.types[f.locals[1]]
    while t[0] == "ref": t = f.types[t[1]]
    return t[1] if t[0] == "adt" else None


def edges(P):
    """Static call graph: fn key -> set of fn keys (trait methods resolve to every workspace implementation)."""
    byname = {}
    for f in P.fns.values():
        if f.kind == "fn" and f.nice: byname.setdefault(f.nice.split("::")[-1], []).append(f)
    out = {}
    for f in P.fns.values():
        s = out.setdefault(f.key, set())
        for blk in f.blocks:
            for m in blk["s"]: _fnrefs(P, m, s)
            _fnrefs(P, blk["t"], s)
    return out


def _fnrefs(P, x, s):
    if isinstance(x, str):
        if x in P.fns: s.add(x)
    elif isinstance(x, (list, tuple)):
        for y in x: _fnrefs(P, y, s)
    elif isinstance(x, dict):
        for y in x.values(): _fnrefs(P, y, s)


def reach(g, root):
    seen, work = set(), [root]
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        work.extend(g.get(k, ()))
    return seen


def lockname(t):
    """Type-level name of a lock: the last field label on the way to it."""
    b, l = LR.flds(t)
    return l[-1] if l else show(b)[:60]


def one(ctx, cfg, P, ty, f):
    """Analyse one method; the provider's methods are analysed one at a time, each seeing the others as calls."""
    if P.find(f.nice) is None:
        ctx.ob("%s:ambiguous:%s" % (cfg, f.nice), False, f.where(), "several functions called %s" % f.nice)
        return None
    if ty == SQL:
        opaque = tuple(x.nice for x in owner_methods(P, SQL) if x.nice != f.nice) + LR.OPAQUE
        return LR.lrun(ctx, "default" if cfg == "full" else cfg, f.nice, recurse=0, opaque=opaque)
    return LR.lrun(ctx, cfg, f.nice, recurse=0)


def c13(ctx):
    for cfg in LR.CFGS:
        P = ctx.program(cfg)
        g = edges(P)
        order = {}
        nlocks = 0
        # what a call that is not analysed in place may lock: methods of the lock-owning types reachable from it
        owners = {}
        for ty in TYPES:
            for f in owner_methods(P, ty): owners[f.key] = f
        for ty in TYPES:
            ms = owner_methods(P, ty)
            ctx.ob("%s:%s" % (cfg, ty), len(ms) >= 3, ty, "no methods found for %s" % ty)
            for f in ms:
                r = one(ctx, cfg, P, ty, f)
                if r is None: continue
                fn, e, a, ps = r
                for p in ps:
                    held = {}
                    for ev in p.events:
                        if ev.kind == "lock":
                            nlocks += 1
                            l, mode, gd = ev.args[0], ev.extra, ev.ret
                            for g2, (l2, m2) in held.items():
                                if l2 is l:
                                    bad = "w" in (mode, m2) or cfg == "sync"
                                    ctx.ob("%s:reenter:%s:%s" % (cfg, f.nice.split("::")[-1], lockname(l)), not bad, ev.where(),
                                           "%s takes %s again while it still holds it: this %s" % (f.nice, lockname(l), "panics" if cfg != "sync" else "blocks forever"))
                                else:
                                    order.setdefault((lockname(l2), lockname(l)), ev.where())
                            held[gd] = (l, mode)
                            ctx.ob("%s:acquire:%s" % (cfg, f.nice), True, ev.where(), "acquires %s" % lockname(l))
                        elif ev.kind == "drop":
                            for gd in list(held):
                                if contains(ev.args[0], gd): del held[gd]
                        elif ev.kind in ("call", "rec") and held:
                            # opaque call under a lock
                            k = [x.key for x in P.bynice.get(ev.name, [])] if ev.name else []
                            if ev.kind == "rec": k = [x.key for x in P.bynice.get(ev.name, [])]
                            for kk in k:
                                for rk in reach(g, kk):
                                    if rk in owners:
                                        locks = taken(ctx, cfg, owners[rk])
                                        for nm, m in locks:
                                            for g2, (l2, m2) in held.items():
                                                if lockname(l2) == nm:
                                                    ctx.ob("%s:callback:%s" % (cfg, nm), not ("w" in (m, m2) or cfg == "sync"), ev.where(),
                                                           "%s is called while %s is held and can come back to %s, which takes it again" % (ev.name, nm, owners[rk].nice))
                                                else: order.setdefault((lockname(l2), nm), ev.where())
                    for gd, (l, m) in held.items():
                        # a guard that outlives the call must be part of the returned value
                        ctx.ob("%s:leak:%s" % (cfg, f.nice), p.kind != "ret" or contains(p.value, gd) or p.kind == "panic", f.where(), "%s returns with %s still held" % (f.nice, lockname(l))) if p.kind == "ret" else None
        ctx.ob("%s:locks" % cfg, nlocks > 20, "", "%d acquisitions analysed" % nlocks)
        # no cyclic order
        if cfg == "sync":
            adj = {}
            for (x, y), w in order.items(): adj.setdefault(x, {})[y] = w
            for x in adj:
                seen, work = set(), [y for y in adj[x]]
                while work:
                    y = work.pop()
                    if y in seen: continue
                    seen.add(y)
                    work.extend(adj.get(y, ()))
                ctx.ob("sync:order:%s" % x, x not in seen, list(adj[x].values())[0], "locks are taken in a cyclic order through %s: two threads can block each other" % x)
            ctx.notes["lock_order"] = sorted("%s -> %s" % k for k in order)


def taken(ctx, cfg, f):
    """Locks (name, mode) a method may take, over all its paths."""
    memo = ctx.__dict__.setdefault("_taken", {})
    k = (cfg, f.key)
    if k not in memo:
        memo[k] = set()
        ty = [t for t in TYPES if f.nice.startswith(t + "::") or selfty(f) == t] or [None]
        r = one(ctx, cfg, ctx.program(cfg), ty[0], f)
        if r is not None:
            memo[k] = {(lockname(ev.args[0]), ev.extra) for p in r[3] for ev in p.events if ev.kind == "lock"}
    return memo[k]


SHARED = {
    "utility": ["i18n_utility::LanguageTag", "i18n_utility::LanguageTagRegistry", "i18n_utility::TaggedString", "i18n_utility::PlaceholderValue",
                "i18n_utility::LocalisationData", "i18n_utility::ScriptData", "i18n_utility::ScriptDirection", "i18n_utility::RegistryError"],
    "lexer": ["i18n_lexer::IcuDataProvider", "i18n_lexer::Token", "i18n_lexer::TokenType", "i18n_lexer::IcuError", "i18n_lexer::LexerError"],
    "provider": ["i18n_provider::ComponentDetails", "i18n_provider::RepositoryDetails", "i18n_provider::IdentifierDetails", "i18n_provider::LanguageData", "i18n_provider::ProviderError"],
    "sqlite": ["i18n_provider_sqlite3::LocalisationProviderSqlite3", "i18n_provider_sqlite3::ProviderSqlite3Error"],
    "localiser": ["i18n_localiser::CommandRegistry", "i18n_localiser::CommandError", "i18n_localiser::Localiser", "i18n_localiser::LocaliserError", "i18n_localiser::FormatterError"],
}


def c14(ctx):
    d = os.path.join(infra.BUILD, "witness")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    R = infra.REPO
    open(os.path.join(d, "Cargo.toml"), "w").write("""[package]
name = "witness"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
i18n_utility-rizzen-yazston = { path = "%s/crates/utility", features = ["sync"] }
i18n_lexer-rizzen-yazston = { path = "%s/crates/lexer", features = ["sync", "icu_compiled_data"] }
i18n_provider-rizzen-yazston = { path = "%s/crates/provider/core", features = ["sync"] }
i18n_provider_sqlite3-rizzen-yazston = { path = "%s/crates/provider/sqlite3", features = ["sync"] }
i18n_localiser-rizzen-yazston = { path = "%s/crates/localiser", features = ["sync", "icu_compiled_data"] }
""" % (R, R, R, R, R))
    for lk in (R + "/Cargo.lock", "/opt/vp/Cargo.lock"):
        if os.path.exists(lk):
            open(os.path.join(d, "Cargo.lock"), "w").write(open(lk).read())
            break
    lines, at = ["fn send<T: Send>() {}", "fn sync<T: Sync>() {}"], {}
    for l in SHARED.values():
        for t in l:
            for tr in ("send", "sync"):
                lines.append("pub fn w%d() { %s::<%s>(); }" % (len(lines), tr, t))
                at[len(lines)] = (t, tr)
    open(os.path.join(d, "src", "lib.rs"), "w").write("\n".join(lines) + "\n")
    e = infra.env()
    e["CARGO_TARGET_DIR"] = os.path.join(infra.BUILD, "target")
    with infra.build_lock():
        r = subprocess.run(["cargo", infra.TOOLCHAIN, "check", "--offline", "--message-format=json"], cwd=d, env=e, capture_output=True, text=True)
    bad, other = {}, []
    ran = False
    for ln in r.stdout.splitlines():
        try: m = json.loads(ln)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].startswith("i18n_localiser"): ran = True
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        sp = [s for s in m["message"]["spans"] if s["is_primary"]]
        if m["target"]["name"] == "witness" and sp and sp[0]["line_start"] in at:
            bad.setdefault(at[sp[0]["line_start"]], m["message"]["message"])
        elif not m["message"]["message"].startswith("aborting"): other.append(m["message"]["message"])
    if not ran or (r.returncode != 0 and not bad): raise infra.BuildError("witness build failed:\n%s\n%s" % ("\n".join(other[:5]), r.stderr[-2000:]))
    ctx.notes["witnesses"] = len(at)
    for (t, tr) in at.values():
        ctx.ob("%s:%s" % (tr, t), (t, tr) not in bad, t, "in the thread-safe build %s is not %s: %s" % (t, {"send": "transferable to", "sync": "shareable with"}[tr] + " other threads", bad.get((t, tr))))
    P = ctx.program("sync")
    n = 0
    # no single-thread cell or counter in any type of the workspace
    for name, ad in sorted(P.adts.items()):
        if not name.startswith("i18n_"): continue
        for v in ad["variants"]:
            for f in v[2]:
                n += 1
                ts = P.tystr(ad["types"], f[1]) if isinstance(f[1], int) else ""
                ctx.ob("field:%s.%s" % (name, f[0]), not any(x in ts for x in ("core::RefCell<", "alloc::Rc<", "core::Cell<", "core::OnceCell<")), name,
                       "in the thread-safe build %s.%s has the single-threaded type %s" % (name, f[0], ts))
    ctx.notes["fields"] = n
