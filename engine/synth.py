"""Hand-written MIR for iterator consumers/adapters, so that an explicit loop and
the equivalent iterator chain are analysed alike."""
from program import Fn

TYPES = [["bool"], ["other", "opaque"], ["adt", "core::Option", [1]], ["tuple", []], ["ref", 1, True], ["uint", "usize"], ["adt", "alloc::Vec", [1]], ["adt", "core::Result", [1, 1]]]
B, O, OPT, UNIT, REF, US, VEC, RES = range(8)


def call(name, args, dest, tgt, nargs=None):
    c = {"def": name, "dkey": name, "res": None, "key": "", "kind": "unresolved", "targs": []}
    return ["call", ["k", ["fn", c], O], args, [dest, []], tgt, [REF] * len(args), O, 0]


def c(l): return ["c", [l, []]]
def k(n): return ["k", ["int", n], B]


def asg(l, rv): return ["=", [l, []], rv, 0, O]


NEXT = "core::Iterator::next"
CALL = "core::FnMut::call_mut"
SOME = ["c", [3, [["d", 1], ["f", 0, O]]]]


def loop_next(none_bb, some_bb):
    """bb0: _3 = next(_1) -> bb1 ; bb1: switch discr"""
    return [
        {"s": [], "t": call(NEXT, [c(1)], 3, 1), "l": 0, "cu": False},
        {"s": [asg(4, ["discr", [3, []], OPT])], "t": ["switch", c(4), [["0", none_bb]], some_bb, US], "l": 0, "cu": False},
    ]


def blk(s, t): return {"s": s, "t": t, "l": 0, "cu": False}


LOC = [O, REF, REF, OPT, US, O, O, O, O, O]


def fn(name, argc, blocks, locs=None):
    d = {"key": "synthetic::" + name, "nice": "synthetic::" + name, "kind": "ext", "pub": False, "argc": argc,
         "locals": locs or LOC, "names": [], "blocks": blocks, "span": ["synthetic", 0, 0], "derived": False}
    return Fn(d, "synthetic", TYPES)


def some(x): return ["adt", "core::Option", 1, [x]]
def none(): return ["adt", "core::Option", 0, []]


def install(P):
    R = ["return"]
    fs = []

    def apply(arg, dest, tgt):
        return blk([asg(5, ["use", arg]), asg(6, ["tuple", [c(5)]])], call(CALL, [c(2), c(6)], dest, tgt))

    def apply_ref(arg, dest, tgt):
        return blk([asg(5, ["use", arg]), asg(8, ["ref", [5, []], False]), asg(6, ["tuple", [c(8)]])], call(CALL, [c(2), c(6)], dest, tgt))

    fs.append(fn("any", 2, loop_next(2, 3) + [blk([asg(0, ["use", k(0)])], R), apply(SOME, 7, 4), blk([], ["switch", c(7), [["0", 0]], 5, B]), blk([asg(0, ["use", k(1)])], R)]))
    fs.append(fn("all", 2, loop_next(2, 3) + [blk([asg(0, ["use", k(1)])], R), apply(SOME, 7, 4), blk([], ["switch", c(7), [["0", 5]], 0, B]), blk([asg(0, ["use", k(0)])], R)]))
    fs.append(fn("find", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply_ref(SOME, 7, 4), blk([], ["switch", c(7), [["0", 0]], 5, B]), blk([asg(0, some(c(5)))], R)]))
    fs.append(fn("position", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply(SOME, 7, 4), blk([], ["switch", c(7), [["0", 0]], 5, B]), blk([], call("synthetic::index_of", [c(1)], 9, 6)), blk([asg(0, some(c(9)))], R)]))
    fs.append(fn("for_each", 2, loop_next(2, 3) + [blk([asg(0, ["tuple", []])], R), apply(SOME, 7, 0)]))
    fs.append(fn("find_map", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply(SOME, 7, 4), blk([asg(4, ["discr", [7, []], OPT])], ["switch", c(4), [["0", 0]], 5, US]), blk([asg(0, ["use", c(7)])], R)]))
    # collect: vec = []; loop { push }
    fs.append(fn("collect", 1, [
        blk([asg(7, ["array", []])], ["goto", 1]),
        {"s": [], "t": call(NEXT, [c(1)], 3, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["use", c(7)])], R),
        blk([asg(5, ["use", SOME]), asg(8, ["ref", [7, []], True])], call("synthetic::push", [c(8), c(5)], 9, 1)),
    ]))
    STR = ["k", ["str", ""], O]
    fs.append(fn("collect_str", 1, [
        blk([asg(7, ["use", STR])], ["goto", 1]),
        {"s": [], "t": call(NEXT, [c(1)], 3, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["use", c(7)])], R),
        blk([asg(5, ["use", SOME]), asg(8, ["ref", [7, []], True])], call("synthetic::push_text", [c(8), c(5)], 9, 1)),
    ]))
    # collect into a Result: the first error ends it
    ERRV = ["c", [5, [["d", 1], ["f", 0, O]]]]
    OKV = ["c", [5, [["d", 0], ["f", 0, O]]]]
    fs.append(fn("collect_result", 1, [
        blk([asg(7, ["array", []])], ["goto", 1]),
        {"s": [], "t": call(NEXT, [c(1)], 3, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["adt", "core::Result", 0, [c(7)]])], R),
        blk([asg(5, ["use", SOME]), asg(4, ["discr", [5, []], RES])], ["switch", c(4), [["0", 6]], 5, US]),
        blk([asg(0, ["adt", "core::Result", 1, [ERRV]])], R),
        blk([asg(6, ["use", OKV]), asg(8, ["ref", [7, []], True])], call("synthetic::push", [c(8), c(6)], 9, 1)),
    ], [O, REF, REF, OPT, US, RES, O, O, O, O]))
    fs.append(fn("collect_result_map", 1, [
        blk([], call("synthetic::map_new", [], 7, 1)),
        {"s": [], "t": call(NEXT, [c(1)], 3, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["adt", "core::Result", 0, [c(7)]])], R),
        blk([asg(5, ["use", SOME]), asg(4, ["discr", [5, []], RES])], ["switch", c(4), [["0", 6]], 5, US]),
        blk([asg(0, ["adt", "core::Result", 1, [ERRV]])], R),
        blk([asg(6, ["use", OKV]), asg(8, ["ref", [7, []], True])], call("synthetic::map_put", [c(8), c(6)], 9, 1)),
    ], [O, REF, REF, OPT, US, RES, O, O, O, O]))
    fs.append(fn("collect_map", 1, [
        blk([], call("synthetic::map_new", [], 7, 1)),
        {"s": [], "t": call(NEXT, [c(1)], 3, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["use", c(7)])], R),
        blk([asg(5, ["use", SOME]), asg(8, ["ref", [7, []], True])], call("synthetic::map_put", [c(8), c(5)], 9, 1)),
    ]))
    fs.append(fn("extend_map", 2, loop_next(2, 3) + [
        blk([asg(0, ["tuple", []])], R),
        blk([asg(5, ["use", SOME])], call("synthetic::map_put", [c(2), c(5)], 9, 0)),
    ]))
    fs.append(fn("try_for_each", 2, loop_next(2, 3) + [
        blk([asg(9, ["tuple", []]), asg(0, ["adt", "core::Result", 0, [c(9)]])], R),
        apply(SOME, 7, 4),
        blk([asg(4, ["discr", [7, []], RES])], ["switch", c(4), [["0", 0]], 5, US]),
        blk([asg(0, ["use", c(7)])], R),
    ], [O, REF, REF, OPT, US, O, O, RES, O, O]))
    fs.append(fn("extend_str", 2, loop_next(2, 3) + [
        blk([asg(0, ["tuple", []])], R),
        blk([asg(5, ["use", SOME])], call("synthetic::push_text", [c(2), c(5)], 9, 0)),
    ]))
    # fold: _2 initial value, _3 closure cell
    fs.append(fn("fold", 3, [
        blk([asg(7, ["use", c(2)])], ["goto", 1]),
        {"s": [], "t": call(NEXT, [c(1)], 8, 2), "l": 0, "cu": False},
        blk([asg(4, ["discr", [8, []], OPT])], ["switch", c(4), [["0", 3]], 4, US]),
        blk([asg(0, ["use", c(7)])], R),
        blk([asg(5, ["use", ["c", [8, [["d", 1], ["f", 0, O]]]]]), asg(6, ["tuple", [c(7), c(5)]])], call(CALL, [c(3), c(6)], 9, 5)),
        blk([asg(7, ["use", c(9)])], ["goto", 1]),
    ], [O, REF, O, REF, US, O, O, O, OPT, O]))
    fs.append(fn("extend", 2, loop_next(2, 3) + [
        blk([asg(0, ["tuple", []])], R),
        blk([asg(5, ["use", SOME])], call("synthetic::push", [c(2), c(5)], 9, 0)),
    ]))
    # adapters' next: _1 inner iterator cell, _2 closure cell
    fs.append(fn("next_map", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply(SOME, 7, 4), blk([asg(0, some(c(7)))], R)]))
    fs.append(fn("map_some", 2, [blk([asg(6, ["tuple", [c(1)]])], call(CALL, [c(2), c(6)], 7, 1)), blk([asg(0, some(c(7)))], R)]))
    fs.append(fn("next_filter", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply_ref(SOME, 7, 4), blk([], ["switch", c(7), [["0", 0]], 5, B]), blk([asg(0, some(c(5)))], R)]))
    fs.append(fn("next_filter_map", 2, loop_next(2, 3) + [blk([asg(0, none())], R), apply(SOME, 7, 4), blk([asg(4, ["discr", [7, []], OPT])], ["switch", c(4), [["0", 0]], 5, US]), blk([asg(0, ["use", c(7)])], R)]))
    fs.append(fn("or_insert_with", 2, [
        blk([], call("synthetic::entry_get", [c(1)], 3, 1)),
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 2]], 3, US]),
        blk([asg(6, ["tuple", []])], call(CALL, [c(2), c(6)], 7, 4)),
        blk([asg(0, ["use", SOME])], R),
        blk([], call("synthetic::entry_insert", [c(1), c(7)], 0, 5)), blk([], R)]))
    fs.append(fn("and_modify", 2, [
        blk([], call("synthetic::entry_get", [c(1)], 3, 1)),
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 2]], 3, US]),
        blk([asg(0, ["use", c(1)])], R),
        blk([asg(5, ["use", SOME]), asg(6, ["tuple", [c(5)]])], call(CALL, [c(2), c(6)], 7, 2))]))
    fs.append(fn("next_if", 2, [
        blk([], call("synthetic::peek", [c(1)], 3, 1)),
        blk([asg(4, ["discr", [3, []], OPT])], ["switch", c(4), [["0", 2]], 3, US]),
        blk([asg(0, none())], R), apply_ref(SOME, 7, 4), blk([], ["switch", c(7), [["0", 2]], 5, B]),
        blk([], call(NEXT, [c(1)], 0, 6)), blk([], R)]))
    for f in fs: P.fns[f.key] = f
