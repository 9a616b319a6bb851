from common import *
from solver.geometry import Vector, angle_3p, is_acute, is_obtuse
BOUND = "random, collinear, degenerate and right-angled triples"


def cases(S):
    r = S.rng
    V = [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (2, 3), (1e-9, 0)]
    for a in V:
        for b in V:
            for c in V:
                yield {"p": [a, b, c]}
    while True:
        a, b, c = S.point(), S.point(), S.point()
        k = r.random()
        if k > 0.85:
            # at the edge of the tolerance around the right angle
            h = math.pi / 2
            w = h + r.choice([1, -1]) * (1e-8 + 1e-5 * h) + r.uniform(-3e-10, 3e-10)
            l, s = r.choice([1.0, 2.0, 5.0]), r.choice([1, -1])
            a, b, c = [1.0, 0.0], [0.0, 0.0], [l * math.cos(w), s * l * math.sin(w)]
        elif k < 0.4:
            t = r.choice([1, -1]) * abs(S.number())
            c = [b[0] + t * (a[0] - b[0]), b[1] + t * (a[1] - b[1])]      # collinear: rounding may exceed 1
        elif k < 0.5:
            c = [b[0] + S.tiny(), b[1] + S.tiny()]
        elif k < 0.6:
            c = [b[0] - (a[1] - b[1]), b[1] + (a[0] - b[0])]
        elif k < 0.65:
            a = [b[0] + S.tiny(), b[1] + S.tiny()]
        yield {"p": [a, b, c]}


def check(inp):
    ps = inp["p"]
    vs = [Vector(*c) for c in ps]
    g, ac, ob = angle_3p(*vs), is_acute(*vs), is_obtuse(*vs)
    for o, c in zip(vs, ps):
        need((o.x, o.y) == tuple(map(float, c)), "a point was changed")
    a, b, c = ps
    p, q = (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])
    lp, lq = math.hypot(*p), math.hypot(*q)
    if lp < 0.99e-8 or lq < 0.99e-8:
        need(g is None and not ac and not ob, "a degenerate triple gives %r, %r, %r", g, ac, ob)
        return
    if min(lp, lq) < 1.01e-8:
        return
    need(g is not None, "no angle for a proper triple")
    need(-math.pi - 1e-12 <= g <= math.pi + 1e-12, "angle %r", g)
    t = max(-1.0, min(1.0, (p[0] * q[0] + p[1] * q[1]) / (lp * lq)))
    need(abs(math.cos(g) - t) <= 1e-6, "cosine of the angle is %r, not %r", math.cos(g), t)
    cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
    noise = 1e-12 * (abs((b[0] - a[0]) * (c[1] - b[1])) + abs((b[1] - a[1]) * (c[0] - b[0])))
    if abs(cr - 1e-8) > noise + 1e-18 and abs(g) > 1e-12:
        need((g < 0) == (cr > 1e-8), "angle %r although the cross product is %r", g, cr)
    w, h = abs(g), math.pi / 2
    lim = 1e-8 + 1e-5 * h
    if abs(abs(w - h) - lim) > 2e-12:
        need(bool(ac) == (w < h - lim), "is_acute is %r at %r", ac, g)
        need(bool(ob) == (w > h + lim), "is_obtuse is %r at %r", ob, g)
