from kmodel import *
BOUND = "pairs of clusters over 5 points exhaustively sampled, random pairs over up to 9 points"


def cases(S):
    for n in range(0, 4):
        for names in ([1, 2, 3, 4][:n], [1] * n, [1, 2, 1, 2][:n]):
            yield {"new": ["B"] + names}
            yield {"new": ["H"] + ([1] + names if n else [1])}
    yield {"new": ["H", 1, 1, 2]}
    yield {"new": ["H", 1, 2, 2]}
    for c in pairs(S):
        yield c


def expected(a, b):
    A, B = (build(a), build(b))
    va, vb = set(A.vars), set(B.vars)
    s = va & vb
    if len(s) < 2:
        return None
    ha, hb = a[0] == "H", b[0] == "H"
    if ha and hb:
        x = A.x_vars & B.x_vars
        return ("H", A.c_var, frozenset(x)) if A.c_var == B.c_var and len(x) >= 2 else None
    if ha or hb:
        h, o = (A, B) if ha else (B, A)
        x = set(h.x_vars) & set(o.vars)
        return ("H", h.c_var, frozenset(x)) if h.c_var in o.vars and len(x) >= 2 else None
    if a[0] == b[0] == "R":
        return ("R", frozenset(s))
    return ("B", frozenset(s)) if len(s) >= 3 else None


def check(inp):
    if "new" in inp:
        r, e = attempt(build, inp["new"])
        need((r == "ok") == valid(inp["new"]), "%r: %s", inp["new"], r)
        need(r == "ok" or isinstance(e, ValueError), "%r raises %r", inp["new"], e)
        return
    if not valid(inp["a"]) or not valid(inp["b"]):
        return
    a, b = build(inp["a"]), build(inp["b"])
    for d, c in ((inp["a"], a), (inp["b"], b)):
        vs = [hv(x) for x in d[1:]]
        need(set(c.vars) == set(vs), "%r has points %r", d, c.vars)
        need(len(list(c.var_list())) == len(set(vs)) and set(c.var_list()) == set(vs), "%r lists points %r", d, c.var_list())
        if d[0] == "H":
            need(c.c_var == vs[0] and c.x_vars == set(vs[1:]) - {vs[0]}, "%r has outer points %r", d, c.x_vars)
    sa, sb = snap(a), snap(b)
    want = expected(inp["a"], inp["b"])
    for x in (a, b):
        g = x.intersection(x)
        d = inp["a"] if x is a else inp["b"]
        need(shape(g) == expected(d, d) and g is not x, "%s with itself: %r", x, shape(g))
    for x, y in ((a, b), (b, a)):
        g = x.intersection(y)
        got = shape(g)
        need(got == want, "%s with %s: %r, expected %r", x, y, got, want)
        need(g is None or g is not a and g is not b, "the intersection is one of the clusters")
        need(snap(a) == sa and snap(b) == sb, "a cluster is changed")
        if g is not None:
            g.vars.add("new")
            if isinstance(g, Hedgehog):
                g.x_vars.add("new")
            need(snap(a) == sa and snap(b) == sb, "a change of the intersection changes a cluster")
