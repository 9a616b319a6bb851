from common import *
from solver.geometry import Vector, cc_int
BOUND = "random circles, exact tangencies, coincident and nearly coincident centres"


def cases(S):
    r = S.rng
    V = [0, 1, 2, 3, 5]
    for x in (0, 1, -2, 3, 4):
        for y in (0, 1, 4, -3):
            for r1 in V:
                for r2 in V:
                    yield {"p1": [1, 2], "r1": r1, "p2": [1 + x, 2 + y], "r2": r2}
    while True:
        p1 = S.point()
        k = r.random()
        if k > 0.95:
            # close together, far from the origin
            o = [r.choice([1e4, -5e4, 3e4]), r.choice([0.0, 2e4])]
            p1 = [o[0] + r.randint(-8, 8) / 8, o[1] + r.randint(-8, 8) / 8]
            p2 = [p1[0] + r.randint(-8, 8) / 8, p1[1] + r.randint(-8, 8) / 8]
        elif k < 0.1:
            p2 = [p1[0] + S.tiny(), p1[1] + S.tiny()]
        elif k < 0.3:
            p2 = [p1[0] + r.choice([0, 3, -4, 5]), p1[1] + r.choice([0, 4, -3, 12])]
        else:
            p2 = S.point()
        d = math.hypot(p2[0] - p1[0], p2[1] - p1[1])
        r1 = S.positive()
        k = r.random()
        if k < 0.15:
            r1 = r.uniform(0, d)
            r2 = d - r1
        elif k < 0.3:
            r2 = r1 + d if r.random() < .5 else abs(r1 - d)
        elif k < 0.45:
            r1 = r.uniform(0, 1) * d
            r2 = math.sqrt(d * d + r1 * r1)      # the chord through the first centre
        elif k < 0.7:
            r2 = r.uniform(abs(d - r1), d + r1)
        else:
            r2 = S.positive()
        yield {"p1": p1, "r1": r1, "p2": p2, "r2": r2}


def check(inp):
    p1, r1, p2, r2 = inp["p1"], inp["r1"], inp["p2"], inp["r2"]
    a, b = Vector(*p1), Vector(*p2)
    pts = cc_int(a, r1, b, r2)
    need((a.x, a.y) == tuple(map(float, p1)) and (b.x, b.y) == tuple(map(float, p2)), "a centre was changed")
    need(isinstance(pts, (list, tuple)) and len(pts) <= 2, "not a list of at most two points: %r", pts)
    d = math.hypot(p2[0] - p1[0], p2[1] - p1[1])
    scale = max(1.0, abs(r1), abs(r2), d, *[abs(c) for c in p1 + p2])
    if d < 9e-9:
        need(not pts, "coincident centres give points")
        return
    if d < 1e-4 or scale > 1e5:
        return              # too ill-conditioned for a floating-point oracle
    u = ((r1 * r1 - r2 * r2) / d + d) / 2
    h2 = r1 * r1 - u * u
    tol = 1e-8 + 1e-5 * u * u
    noise = 1e-9 * max(r1 * r1, u * u, 1e-3) + 1e-13 * abs(u) * max(r1 * r1, r2 * r2, d * d) / d
    cond = scale / d
    if h2 < -1.01 * tol - noise:
        need(not pts, "circles apart or nested give %r", pts)
        return
    if h2 > -0.99 * tol + noise:
        need(pts, "no point although the circles meet within tolerance")
    if not pts:
        return
    h = math.sqrt(max(h2, 0))
    e = ((p2[0] - p1[0]) / d, (p2[1] - p1[1]) / d)
    want = [(p1[0] + u * e[0] + s * h * e[1], p1[1] + u * e[1] - s * h * e[0]) for s in (1, -1)]
    lim = 1e-6 * scale * max(1, cond) + (1e-3 * scale if h < 1e-3 * scale else 0)
    dev = 4 * math.sqrt(max(tol, abs(h2) if h2 < 0 else 0)) if h2 < 0 else 0
    for q in pts:
        for (c, rr, w) in ((p1, r1, "first"), (p2, r2, "second")):
            x = math.hypot(q.x - c[0], q.y - c[1])
            need(abs(x - rr) <= 1e-6 * scale * max(1, cond) + dev, "(%r, %r) is not on the %s circle", q.x, q.y, w)
    if h2 >= 0:
        for w in want:
            near = min(math.hypot(q.x - w[0], q.y - w[1]) for q in pts)
            need(near <= lim, "common point %r is not returned", w)
    s = abs(u)
    if s > 1e-6 * scale:
        if h2 > noise and h > 1e-3 * s:
            need(len(pts) == 2, "two common points, %d returned", len(pts))
        if h2 < -noise:
            need(len(pts) == 1, "the circles touch within tolerance, %d points returned", len(pts))
    elif s < 1e-9 and r1 > 1e-3 * d and r1 > 1e-3:
        need(len(pts) == 2, "two common points, %d returned", len(pts))
    if len(pts) == 2 and h > 1e-3 * scale:
        need(math.hypot(pts[0].x - pts[1].x, pts[0].y - pts[1].y) > h, "the two points coincide")
