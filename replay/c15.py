from common import *
from solver.geometry import Vector, cl_int, cr_int
BOUND = "random circles and lines, exact tangents, axis-parallel lines"


def cases(S):
    r = S.rng
    for p in ((0, 0), (1, 2), (-3, 0.5)):
        for rad in (0, 1, 2.5):
            for q in ((0, 0), (1, 0), (0, 1), (2.5, 2), (-5, 1), (5, -2)):
                for v in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-2, 1), (3, -4), (0.5, 0.25)):
                    yield {"p1": p, "r": rad, "p2": q, "v": v}
    while True:
        p, q = S.point(), S.point()
        v = S.point() if r.random() < 0.7 else r.choice([[1, 0], [0, 1], [-1.5, 0], [0, -2]])
        n = math.hypot(*v)
        if n < 1e-3:
            continue
        D = abs((q[0] - p[0]) * v[1] - (q[1] - p[1]) * v[0]) / n
        k = r.random()
        rad = D if k < 0.1 else D * r.uniform(1, 2) if k < 0.6 else S.positive()
        if r.random() < 0.1:      # origin of the ray on the circle
            t = r.uniform(0, 7)
            q = [p[0] + rad * math.cos(t), p[1] + rad * math.sin(t)]
        yield {"p1": p, "r": rad, "p2": q, "v": v}


def check(inp):
    p1, r, p2, v = inp["p1"], inp["r"], inp["p2"], inp["v"]
    A = [Vector(*p1), Vector(*p2), Vector(*v)]
    got = cl_int(A[0], r, A[1], A[2])
    ray = cr_int(A[0], r, A[1], A[2])
    for o, c in zip(A, (p1, p2, v)):
        need((o.x, o.y) == tuple(map(float, c)), "an argument was changed")
    need(isinstance(got, (list, tuple)) and isinstance(ray, (list, tuple)), "not lists")
    d2 = v[0] ** 2 + v[1] ** 2
    if d2 <= 1.1e-8:
        return
    px, py = p2[0] - p1[0], p2[1] - p1[1]
    D = px * v[1] - py * v[0]
    E = r * r * d2 - D * D
    scale = max(1.0, abs(r), *[abs(c) for c in list(p1) + list(p2)])
    noise = 1e-9 * max(r * r * d2, D * D, 1e-2 * d2 * scale * scale * 1e-3)
    n = math.sqrt(d2)
    foot = (p1[0] + D * v[1] / d2, p1[1] - D * v[0] / d2)
    lim = 1e-6 * scale + 1e-4 * scale * (abs(E) < 1e-4 * d2)
    if E < -1.01e-8 - noise:
        need(len(got) == 0, "a miss gives %d points", len(got))
    elif E > 1.01e-8 + noise:
        need(len(got) == 2, "a secant gives %d points", len(got))
        h = math.sqrt(E) / d2
        for s in (1, -1):
            w = (foot[0] + s * h * v[0], foot[1] + s * h * v[1])
            need(min(math.hypot(q.x - w[0], q.y - w[1]) for q in got) <= lim, "common point %r is missing: %r", w, got)
    elif abs(E) < 0.99e-8 - noise:
        need(len(got) == 1, "a tangent gives %d points", len(got))
        need(math.hypot(got[0].x - foot[0], got[0].y - foot[1]) <= lim, "tangent point (%r, %r), not %r", got[0].x, got[0].y, foot)
    for q in got:
        x = abs((q.x - p2[0]) * v[1] - (q.y - p2[1]) * v[0]) / n
        need(x <= 1e-6 * scale, "(%r, %r) is off the line by %r", q.x, q.y, x)
        y = abs(math.hypot(q.x - p1[0], q.y - p1[1]) - r)
        need(y <= 1e-6 * scale + 2e-4 / n * (abs(E) <= 2e-8) + lim, "(%r, %r) is off the circle by %r", q.x, q.y, y)
    mark = lambda q: (round(q.x, 9), round(q.y, 9))
    for q in ray:
        need(any(abs(q.x - o.x) + abs(q.y - o.y) <= 1e-9 * scale for o in got), "a point of the ray is not one of the line")
        t = (q.x - p2[0]) * v[0] + (q.y - p2[1]) * v[1]
        need(t >= -1.05e-8 - 1e-9 * scale * n, "(%r, %r) is behind the ray's origin", q.x, q.y)
    for q in got:
        t = (q.x - p2[0]) * v[0] + (q.y - p2[1]) * v[1]
        if t >= -0.9e-8:
            need(any(abs(q.x - o.x) + abs(q.y - o.y) <= 1e-9 * scale for o in ray), "(%r, %r) is missing on the ray", q.x, q.y)
    need(len(ray) <= len(got), "more points on the ray than on the line")
