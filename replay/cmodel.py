"""Configurations: generators and plane geometry for the oracles."""
from common import *
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration


def coords(S, n, far=True):
    """n points; exactly coincident or at least 0.1 apart, coordinates at most 60."""
    r = S.rng
    pts = []
    big = r.choice([1, 5, 50])
    k = r.random()
    while len(pts) < n:
        if pts and r.random() < (0.15 if k < .6 else 0 if k < .9 else .7):
            pts.append(list(r.choice(pts)))
            continue
        p = [r.uniform(-big, big), r.uniform(-big, big)] if r.random() < .6 else [float(r.randint(-5, 5)), float(r.randint(-5, 5))]
        if all(q == p or math.hypot(p[0] - q[0], p[1] - q[1]) > 0.1 for q in pts):
            pts.append(p)
    return pts


def move(p, m):
    """Rotation by m[0], translation by (m[1], m[2])."""
    c, s = math.cos(m[0]), math.sin(m[0])
    return [c * p[0] - s * p[1] + m[1], s * p[0] + c * p[1] + m[2]]


def motion(S):
    r = S.rng
    return [r.choice([0.0, math.pi / 2, math.pi, r.uniform(-4, 4)]), r.choice([0.0, r.uniform(-20, 20)]), r.choice([0.0, r.uniform(-20, 20)])]


def conf(d):
    return Configuration({hv(n): Vector(*p) for n, p in d})


def points(c):
    return {v: (c.get(v).x, c.get(v).y) for v in c.vars()}


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def unchanged(c, before, name):
    now = points(c)
    need(list(now) == list(before[0]) and now == before[0] and c.underconstrained == before[1], "%s is changed", name)


def snap(c):
    return points(c), c.underconstrained
