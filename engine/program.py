"""Loads the MIR dumps written by the driver for one build configuration."""
import json, os, glob


class Fn:
    __slots__ = ("key", "nice", "kind", "pub", "argc", "locals", "names", "blocks", "span", "crate", "derived",
                 "types", "sig", "traitimpl", "_heads", "_bodies", "_locname", "_succ", "_dead")

    def __init__(s, d, crate, types):
        s.key = d["key"]; s.nice = d["nice"]; s.kind = d["kind"]; s.pub = d["pub"]; s.argc = d["argc"]
        s.locals = d["locals"]; s.names = d["names"]; s.blocks = d["blocks"]; s.span = d["span"]
        s.crate = crate; s.derived = d["derived"]; s.types = types; s.sig = d.get("sig")
        s.traitimpl = d.get("traitimpl", False)
        s._heads = None; s._bodies = None; s._locname = None; s._succ = None; s._dead = None

    def succ(s, b):
        if s._succ is None:
            s._succ = [s._succ0(i) for i in range(len(s.blocks))]
        return s._succ[b]

    def _succ0(s, b):
        t = s.blocks[b]["t"]
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "drop": return [t[2]]
        if k == "call": return [] if t[4] is None else [t[4]]
        if k == "assert": return [t[4]]
        return []

    def branches(s, h):
        """Number of blocks of the loop with head h that go on within the function in more than one way."""
        body = s.loops().get(h, ())
        if s._dead is None: s._dead = {}
        dead = s._dead
        def ends(b, n=0):
            """Nothing but the end of the program follows."""
            if b not in dead:
                t = s.blocks[b]["t"]
                su = list(s.succ(b))
                dead[b] = not su and t[0] not in ("return",)
            return dead[b]
        return sum(1 for b in body if s.blocks[b]["t"][0] == "switch" and sum(1 for x in set(s.succ(b)) if not ends(x)) > 1)

    def loops(s):
        """Loop heads -> set of blocks of the natural loop."""
        if s._heads is None:
            n = len(s.blocks)
            # iterative DFS for back edges
            color = [0] * n
            back = []
            st = [(0, iter(s.succ(0)))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for x in it:
                    if color[x] == 0:
                        color[x] = 1
                        st.append((x, iter(s.succ(x))))
                        break
                    elif color[x] == 1:
                        back.append((b, x))
                else:
                    color[b] = 2
                    st.pop()
            pred = [[] for _ in range(n)]
            for b in range(n):
                if color[b]:
                    for x in s.succ(b):
                        pred[x].append(b)
            heads = {}
            for b, h in back:
                body = heads.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(pred[x])
            s._heads = heads
        return s._heads

    def locname(s):
        if s._locname is None:
            s._locname = {}
            for n, (l, proj) in s.names:
                if not proj:
                    s._locname.setdefault(l, n)
        return s._locname

    def where(s, line=None):
        f = s.span[0]
        f = f[len("/repo/"):] if f.startswith("/repo/") else f
        return "%s:%s" % (f, line if line is not None else s.span[1])


class Program:
    def __init__(s, dumpdir):
        s.fns = {}; s.adts = {}; s.impls = []; s.crates = []
        s.bynice = {}
        for p in sorted(glob.glob(os.path.join(dumpdir, "*.json"))):
            d = json.load(open(p))
            s.crates.append(d["crate"])
            types = d["types"]
            for a in d["adts"]:
                old = s.adts.get(a["name"])
                if old is None or a["key"].startswith(d["crate"] + "::"):
                    a["types"] = types
                    s.adts[a["name"]] = a
            s.impls += [i + [d["crate"]] for i in d["impls"]]
            for f in d["fns"]:
                if f["key"] in s.fns and f["kind"] in ("ext", "promoted"):
                    continue
                F = Fn(f, d["crate"], types)
                s.fns[F.key] = F
                if F.nice and F.kind == "fn":
                    s.bynice.setdefault(F.nice, []).append(F)

        import synth
        synth.install(s)

    def find(s, nice):
        """Function by module-independent name (unique)."""
        l = s.bynice.get(nice, [])
        return l[0] if len(l) == 1 else None

    def tystr(s, types, t):
        if t is None: return "?"
        x = types[t]
        k = x[0]
        if k == "adt":
            return x[1] + ("<" + ",".join(s.tystr(types, y) for y in x[2]) + ">" if x[2] else "")
        if k == "ref": return ("&mut " if x[2] else "&") + s.tystr(types, x[1])
        if k == "ptr": return "*" + s.tystr(types, x[1])
        if k == "slice": return "[" + s.tystr(types, x[1]) + "]"
        if k == "array": return "[%s;%s]" % (s.tystr(types, x[1]), x[2])
        if k == "tuple": return "(" + ",".join(s.tystr(types, y) for y in x[1]) + ")"
        if k in ("int", "uint", "float", "param"): return x[1]
        if k in ("bool", "char", "str", "never"): return k
        return "%s %s" % (k, x[1])
