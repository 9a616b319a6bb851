from common import *
from solver.geometry import Vector, is_clockwise, is_counterclockwise, is_flat
BOUND = "random and degenerate triangles"


def cases(S):
    r = S.rng
    V = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (-1, 3)]
    for a in V:
        for b in V:
            for c in V:
                yield {"p": [a, b, c], "t": [3, -7]}
    while True:
        a, b, c = S.point(), S.point(), S.point()
        k = r.random()
        if k < 0.2:
            t = S.number()
            c = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]) + S.tiny()]
        elif k < 0.3:
            c = [b[0] + S.tiny(), b[1] + S.tiny()]
        elif k < 0.5:
            e = r.choice([1e-8, 2e-8, 5e-9, 1e-6, 1e-7, 3e-8])
            a, b, c = [0.0, 0.0], [1.0, 0.0], [1.0, r.choice([e, -e])]
        yield {"p": [a, b, c], "t": S.point()}


def cls(p):
    vs = [Vector(*c) for c in p]
    r = tuple(bool(f(*vs)) for f in (is_clockwise, is_counterclockwise, is_flat))
    for o, c in zip(vs, p):
        need((o.x, o.y) == tuple(map(float, c)), "a point was changed")
    return r


def check(inp):
    a, b, c = inp["p"]
    u, v = (b[0] - a[0], b[1] - a[1]), (c[0] - b[0], c[1] - b[1])
    cr = u[0] * v[1] - u[1] * v[0]
    k = cls([a, b, c])
    need(sum(k) == 1, "classes of %r: %r", inp["p"], k)
    noise = 1e-12 * (abs(u[0] * v[1]) + abs(u[1] * v[0]))
    if abs(abs(cr) - 1e-8) > noise + 1e-18:
        want = (cr < -1e-8, cr > 1e-8, abs(cr) <= 1e-8)
        need(k == want, "(clockwise, counter-clockwise, flat) of %r is %r", inp["p"], k)
    m = max(abs(x) for x in list(a) + list(b) + list(c) + inp["t"]) + 1
    if abs(abs(cr) - 1e-8) > 1e-11 * m * m:
        need(cls([c, b, a]) == (k[1], k[0], k[2]), "reversal")
        need(cls([b, c, a]) == k and cls([c, a, b]) == k, "cyclic renaming")
        t = inp["t"]
        need(cls([[p[0] + t[0], p[1] + t[1]] for p in (a, b, c)]) == k, "translation")
