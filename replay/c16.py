from common import *
from solver.geometry import Vector, ll_int, lr_int, rr_int
BOUND = "random lines and rays, parallel and axis-parallel ones"


def cases(S):
    r = S.rng
    D = [(1, 0), (0, 1), (-1, 0), (0, -2), (1, 1), (-1, 2), (2, -3), (0.001, 1)]
    P = [(0, 0), (1, 2), (-2, 1), (0, 3)]
    for p1 in P:
        for p2 in P:
            for v1 in D:
                for v2 in D:
                    yield {"p1": p1, "v1": v1, "p2": p2, "v2": v2}
    while True:
        p1, v1, p2, v2 = [S.point() for _ in range(4)]
        k = r.random()
        if k < 0.1:
            c = S.number()
            v2 = [v1[0] * c, v1[1] * c]
        elif k < 0.3:
            p2 = [p1[0] + v1[0] * 2, p1[1] + v1[1] * 2]      # the point is a ray's origin
        elif k < 0.4:
            v1 = [S.tiny(), 1.0]
        elif k < 0.45:
            c, e = r.choice([1, 10.0, 1000.0, 20000.0]), 10.0 ** r.uniform(-7, -3)      # long directions, nearly parallel
            v1 = [v1[0] * c, v1[1] * c]
            v2 = [v1[0] - e * v1[1], v1[1] + e * v1[0]]
        yield {"p1": p1, "v1": v1, "p2": p2, "v2": v2}


def check(inp):
    cs = [inp[n] for n in ("p1", "v1", "p2", "v2")]
    p1, v1, p2, v2 = cs
    A = [Vector(*c) for c in cs]
    f = v1[0] * v2[1] - v1[1] * v2[0]
    scale = max([1.0] + [abs(c) for c in list(p1) + list(p2)])
    n1, n2 = math.hypot(*v1), math.hypot(*v2)
    d = (p2[0] - p1[0], p2[1] - p1[1])
    for name, fn, rays in (("ll_int", ll_int, ""), ("lr_int", lr_int, "2"), ("rr_int", rr_int, "12")):
        got = fn(*A)
        for o, c in zip(A, cs):
            need((o.x, o.y) == tuple(map(float, c)), "%s changed an argument", name)
        need(isinstance(got, (list, tuple)) and len(got) <= 1, "%s returns %r", name, got)
        if abs(f) < 0.99e-8:
            need(not got, "%s: parallel lines give %r", name, got)
            continue
        if name == "ll_int" and abs(f) > 1.01e-8 + 1e-15 * n1 * n2:
            need(len(got) == 1, "ll_int: no point for lines that are not parallel")
        if abs(f) < 1.01e-8 or abs(f) < 1e-5 * n1 * n2:
            continue
        t = (d[0] * v2[1] - d[1] * v2[0]) / f
        w = (p1[0] + t * v1[0], p1[1] + t * v1[1])
        cond = max(1, n1 * n2 / abs(f)) * max(scale, abs(w[0]), abs(w[1]))
        s = []
        if "1" in rays:
            s.append(((w[0] - p1[0]) * v1[0] + (w[1] - p1[1]) * v1[1], n1))
        if "2" in rays:
            s.append(((w[0] - p2[0]) * v2[0] + (w[1] - p2[1]) * v2[1], n2))
        noise = lambda n: 1e-10 * cond * max(n, 1e-3)
        if all(x >= -0.9e-8 + min(noise(n), 0.9e-8) if abs(x) < 1e-6 else x > noise(n) for x, n in s):
            need(len(got) == 1, "%s: the point %r is missing", name, w)
        if any(x < -1.1e-8 - noise(n) for x, n in s):
            need(not got, "%s: the point %r is behind a ray's origin", name, w)
        if got:
            q = got[0]
            need(math.hypot(q.x - w[0], q.y - w[1]) <= 1e-7 * cond, "%s: (%r, %r) is not the common point %r", name, q.x, q.y, w)
