from kmodel import *
BOUND = "pairs of clusters over 5 points exhaustively sampled, random pairs over up to 9 points"
cases = pairs


def fixed(d, c):
    """Distances and angles a cluster fixes."""
    vs = sorted(set(c.vars), key=repr)
    out = set()
    if d[0] == "R":
        out |= {("distance", frozenset(p)) for p in itertools.combinations(vs, 2)}
    if d[0] in "RB":
        for t in itertools.combinations(vs, 3):
            for i in range(3):
                out.add(("angle", t[i], frozenset(t[:i] + t[i + 1:])))
    else:
        out |= {("angle", c.c_var, frozenset(p)) for p in itertools.combinations(sorted(c.x_vars, key=repr), 2)}
    return out


def plain(rs, what):
    rs = list(rs)
    out = set()
    for x in rs:
        need(isinstance(x, (Distance, Angle)), "%s contains %r", what, x)
        out.add(("distance", frozenset(x.points)) if isinstance(x, Distance) else ang(x))
    need(len(out) == len(rs), "%s lists a relation twice", what)
    return out


def check(inp):
    if not valid(inp["a"]) or not valid(inp["b"]):
        return
    a, b = build(inp["a"]), build(inp["b"])
    sa, sb = snap(a), snap(b)
    both = fixed(inp["a"], a) & fixed(inp["b"], b)
    wd = {r for r in both if r[0] == "distance"}
    for x in (a, b):
        f = fixed(inp["a"] if x is a else inp["b"], x)
        g = plain(x.common_constraints(x), "common_constraints")
        need(g == f, "%s with itself: common constraints %r, expected %r", x, g, f)
        need(plain(x.common_distances(x), "common_distances") | plain(x.common_angles(x), "common_angles") == f, "%s with itself", x)
    for x, y in ((a, b), (b, a)):
        gd = plain(x.common_distances(y), "common_distances")
        need(gd == wd, "%s with %s: common distances %r, expected %r", x, y, gd, wd)
        ga = plain(x.common_angles(y), "common_angles")
        need(ga == both - wd, "%s with %s: common angles %r, expected %r", x, y, ga, both - wd)
        gc = plain(x.common_constraints(y), "common_constraints")
        need(gc == both, "%s with %s: common constraints %r, expected %r", x, y, gc, both)
    need(snap(a) == sa and snap(b) == sb, "a cluster is changed")
