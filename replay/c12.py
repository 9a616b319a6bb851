from common import *
from solver.geometry import Vector, distance_2p
BOUND = "random vectors, scalars and angles"


def cases(S):
    V = [-2, 0, 1, 3.5]
    for p in grid(V, 2):
        for q in grid(V, 2):
            yield {"p": p, "q": q, "k": 2.5, "a": 90.0}
    while True:
        yield {"p": S.point(), "q": S.point(), "k": S.number(), "a": S.angle()}


def vec(name, r, x, y, ops, tol=1e-9):
    need(type(r) is Vector, "%s gives %r", name, type(r))
    s = sum(abs(c) for o, c0 in ops for c in c0)
    need(close(r.x, x, tol, s) and close(r.y, y, tol, s), "%s is (%r, %r), not (%r, %r)", name, r.x, r.y, x, y)
    for o, c in ops:
        need((o.x, o.y) == c, "%s changed an operand to (%r, %r)", name, o.x, o.y)
        need(r is not o and r.elements is not o.elements, "%s does not give a new vector", name)
    r.x = 77.25
    r.y = -31.5
    for o, c in ops:
        need((o.x, o.y) == c, "%s shares state with an operand", name)


def check(inp):
    (px, py), (qx, qy), k, a = [tuple(map(float, inp[n])) for n in "pq"] + [inp["k"], inp["a"]]
    P = lambda: Vector(px, py)
    Q = lambda: Vector(qx, qy)
    need((P().x, P().y) == (px, py), "Vector(%r, %r) has other coordinates", px, py)
    p, q = P(), Q()
    ops = [(p, (px, py)), (q, (qx, qy))]
    vec("p + q", p + q, px + qx, py + qy, ops)
    vec("p - q", p - q, px - qx, py - qy, ops)
    vec("p * q", p * q, px * qx, py * qy, ops)
    vec("p + k", p + k, px + k, py + k, ops[:1])
    vec("p - k", p - k, px - k, py - k, ops[:1])
    vec("p * k", p * k, px * k, py * k, ops[:1])
    if k:
        vec("p / k", p / k, px / k, py / k, ops[:1])
    if qx and qy:
        vec("p / q", p / q, px / qx, py / qy, ops)
    vec("-p", -p, -px, -py, ops[:1])
    vec("Vector(p)", Vector(p), px, py, ops[:1])
    for name in ("+", "-", "*"):
        p2 = p
        if name == "+":
            p2 += q
        elif name == "-":
            p2 -= q
        else:
            p2 *= k
        need((p.x, p.y) == (px, py), "augmented %s changed its operand", name)
    need(close(p.dot(q), px * qx + py * qy, 1e-9, abs(px * qx) + abs(py * qy)), "dot is %r", p.dot(q))
    l = p.length
    need(l >= 0 and close(l, math.hypot(px, py), 1e-9), "length of (%r, %r) is %r", px, py, l)
    need(close(l * l, p.dot(p), 1e-9), "square of the length is %r, dot product %r", l * l, p.dot(p))
    need(close(distance_2p(p, q), math.hypot(px - qx, py - qy), 1e-9, abs(px) + abs(qx) + abs(py) + abs(qy)), "distance is %r", distance_2p(p, q))
    t = math.radians(a)
    c, s = math.cos(t), math.sin(t)
    vec("p.rotate(%r)" % a, p.rotate(a), px * c - py * s, px * s + py * c, ops[:1])
    r = p.rotate(a)
    need(close(r.length, l, 1e-9), "rotation changes the length from %r to %r", l, r.length)
    b = r.rotate(-a)
    need(close(b.x, px, 1e-8, l) and close(b.y, py, 1e-8, l), "rotation is not undone: (%r, %r)", b.x, b.y)
    z = p.azimuth
    w = math.degrees(math.atan2(py, px))
    need(close(z, w, 1e-8) or close(abs(z), 180, 1e-9) and close(abs(w), 180, 1e-9), "azimuth of (%r, %r) is %r", px, py, z)
    need((p.x, p.y) == (px, py) and (q.x, q.y) == (qx, qy), "an operand was changed")
    need(list(p[0:2]) == [px, py] and p[0] == px and p[1] == py, "indexing")
