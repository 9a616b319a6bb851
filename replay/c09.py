from common import *
from solver.method import AddMethod, SubMethod, SetMethod, AssignMethod
BOUND = "all built-in methods, random names (also coinciding) and values, absent and None inputs"
VALS = [0, 1, -3, 2.5, None, 1e300, "x", "", [1, 2], True, False, 7, {"s": [1, 2, 3]}, {"s": [3]}, {"s": [2]}]


def cases(S):
    r = S.rng
    for kind in ("add", "sub", "set", "assign"):
        for a in ("a", None):
            for va in (3, None, 0, "absent"):
                for vb in (4, None, 0.0, "absent"):
                    yield {"kind": kind, "names": [a, "b", "c"], "vals": [va, vb, 9], "value": va}
                    yield {"kind": kind, "names": [a, a, "c"], "vals": [va, va, "absent"], "value": vb}
    while True:
        pool = name_pool(S, 4)
        names = [r.choice(pool) for _ in range(3)]
        yield {"kind": r.choice(["add", "sub", "set", "assign"]), "names": names,
               "vals": [r.choice([S.number(), r.choice(VALS), "absent"]) for _ in range(3)], "value": r.choice(VALS + [S.number()])}


def val(v):
    return set(v["s"]) if isinstance(v, dict) else list(v) if isinstance(v, list) else v


def check(inp):
    inp = dict(inp, vals=[val(v) for v in inp["vals"]], value=val(inp["value"]))
    a, b, c = [hv(x) for x in inp["names"]]
    kind = inp["kind"]
    inmap = {"other": 5, "zz": None}
    for n, v in zip((a, b, c), inp["vals"]):
        if v != "absent":
            inmap[n] = v
    m = AddMethod(a, b, c) if kind == "add" else SubMethod(a, b, c) if kind == "sub" else \
        SetMethod(c, inp["value"]) if kind == "set" else AssignMethod(c, b)
    need(m.outputs == [c], "outputs %r", m.outputs)
    need(m.inputs == ([a, b] if kind in ("add", "sub") else [] if kind == "set" else [b]), "inputs %r", m.inputs)
    if kind in ("add", "sub"):
        if a in inmap and b in inmap and inmap[a] is not None and inmap[b] is not None:
            x, y = inmap[a], inmap[b]
            try:
                want = {c: x + y if kind == "add" else x - y}
            except TypeError:
                return
        else:
            want = {}
    elif kind == "set":
        want = {c: inp["value"]}
    else:
        want = {c: inmap[b]} if b in inmap else {}
    before, r0 = dict(inmap), repr(inmap)
    got = m.execute(inmap)
    need(inmap == before and repr(inmap) == r0 and list(inmap) == list(before), "the input mapping is modified: %r", inmap)
    need(got is not inmap, "the input mapping itself is returned")
    need(isinstance(got, dict) and list(got) == list(want), "result %r, expected %r", got, want)
    for k in want:
        need(type(got[k]) == type(want[k]) and got[k] == want[k], "result %r, expected %r", got, want)
    got2 = m.execute(dict(inmap))
    need(repr(got2) == repr(got), "a second execution gives %r", got2)
