"""Debug printer: python3 pp.py <dumpdir> <nice-substring>"""
import sys
from program import Program


def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*": s = "(*%s)" % s
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "d": s += "@%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        else: s += str(e)
    return s


def op(o):
    if o[0] in "cm": return place(o[1])
    c = o[1]
    if c[0] == "fn": return "fn<%s>" % (c[1]["res"] or c[1]["def"])
    return str(c)


def main():
    P = Program(sys.argv[1])
    for f in P.fns.values():
        if sys.argv[2] in (f.nice or f.key):
            print("==", f.nice, f.key, f.where(), f.kind)
            for i, t in enumerate(f.locals):
                print("   _%d: %s  %s" % (i, P.tystr(f.types, t), f.locname().get(i, "")))
            for i, b in enumerate(f.blocks):
                if b["cu"]: continue
                print("  bb%d:%s" % (i, " LOOP" if i in f.loops() else ""))
                for s in b["s"]:
                    if s[0] == "=":
                        r = s[2]
                        print("     %s = %s %s" % (place(s[1]), r[0], [op(x) if isinstance(x, list) and x and x[0] in ("c", "m", "k") else (place(x) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) else ([op(y) for y in x] if isinstance(x, list) else x)) for x in r[1:]]))
                t = b["t"]
                if t[0] == "call":
                    print("     %s = %s(%s) -> %s   [l%s]" % (place(t[3]), op(t[1]), ", ".join(op(x) for x in t[2]), t[4], t[7]))
                elif t[0] == "switch":
                    print("     switch %s %s else %s" % (op(t[1]), t[2], t[3]))
                elif t[0] == "drop": print("     drop %s -> %s" % (place(t[1]), t[2]))
                elif t[0] == "assert": print("     assert %s == %s %s -> %s" % (op(t[1]), t[2], t[3][0], t[4]))
                else: print("    ", t)


main()
