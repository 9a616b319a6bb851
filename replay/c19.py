from common import *
from solver.geometry import Vector, Matrix, make_hcs, make_hcs_scaled, cs_transform_matrix
BOUND = "random pairs of points, coincident ones included"


def cases(S):
    V = [(0, 0), (1, 0), (0, 1), (-2, 3), (1e-9, 0)]
    for a in V:
        for b in V:
            for c in V[:3]:
                yield {"a": a, "b": b, "c": c, "d": [5, 5]}
    while True:
        a, b, c, d = [S.point() for _ in range(4)]
        if S.rng.random() < 0.1:
            b = [a[0] + S.tiny(), a[1] + S.tiny()]
        yield {"a": a, "b": b, "c": c, "d": d}


def frame(f, a, b, scaled, *args, **kw):
    A, B = Vector(*a), Vector(*b)
    m = f(A, B, *args, **kw)
    need((A.x, A.y, B.x, B.y) == tuple(map(float, list(a) + list(b))), "a point was changed")
    x, y = b[0] - a[0], b[1] - a[1]
    d = math.hypot(x, y)
    if d < 0.99e-8:
        need(m is None, "coincident points give a frame")
        return None
    if d < 1.01e-8:
        return m
    need(m is not None, "no frame for points at distance %r", d)
    e = m.elements
    k = 1.0 if scaled else d
    want = [[x / k, -y / k, a[0]], [y / k, x / k, a[1]], [0, 0, 1]]
    need(len(e) == 3 and all(len(r) == 3 for r in e), "shape")
    for i in range(3):
        for j in range(3):
            need(close(e[i][j], want[i][j], 1e-9), "frame of %r, %r: entry (%d, %d) is %r, not %r", a, b, i, j, e[i][j], want[i][j])
    return m


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def check(inp):
    a, b, c, d = [inp[n] for n in "abcd"]
    for scaled, f, args, kw in ((False, make_hcs, (), {}), (True, make_hcs_scaled, (), {}), (True, make_hcs, (), {"scale": True})):
        F, G = frame(f, a, b, scaled, *args, **kw), frame(f, c, d, scaled, *args, **kw)
        if F is None or G is None:
            continue
        if scaled and min(math.hypot(a[0] - b[0], a[1] - b[1]), math.hypot(c[0] - d[0], c[1] - d[1])) < 1e-3:
            continue
        ef, eg = [list(r) for r in F.elements], [list(r) for r in G.elements]
        T = cs_transform_matrix(F, G)
        need([list(r) for r in F.elements] == ef and [list(r) for r in G.elements] == eg, "a frame was changed")
        t = T.elements
        m = mul(t, ef)
        s = max(abs(x) for r in ef + eg + [list(r) for r in t] for x in r) + 1
        for i in range(3):
            for j in range(3):
                need(abs(m[i][j] - eg[i][j]) <= 1e-8 * s * s, "the transform takes %r to %r, not %r", ef, m, eg)
        if not scaled:
            need(abs(t[0][0] ** 2 + t[1][0] ** 2 - 1) < 1e-8 and abs(t[0][0] - t[1][1]) < 1e-8 and
                 abs(t[0][1] + t[1][0]) < 1e-8 and abs(t[2][0]) + abs(t[2][1]) < 1e-8 and abs(t[2][2] - 1) < 1e-8,
                 "not a rotation and translation: %r", t)
