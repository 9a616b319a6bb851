"""C15: circle-line and circle-ray intersections.  The direction must not vanish within tolerance
(its squared length exceeds 1e-8)."""
import z3
from pyvc.verify import spec, R
from contracts.c12 import xy
from contracts.c17 import TOL

G = "solver.geometry:"


def setup(v):
    ps = [v.vec(n) for n in ("p1", "p2", "v")]
    cs = [(v.inputs[n + ".x"], v.inputs[n + ".y"]) for n in ("p1", "p2", "v")]
    r = v.real("r")
    p1, p2, d = cs
    d2 = d[0] * d[0] + d[1] * d[1]
    D = (p2[0] - p1[0]) * d[1] - (p2[1] - p1[1]) * d[0]
    E = r * r * d2 - D * D
    v.assume(r >= 0)
    v.assume(d2 > TOL)
    v.cover()
    return ps, cs, r, d2, D, E


def untouched(v, ps, cs, name):
    for p, c in zip(ps, cs):
        x, y = xy(v, p)
        v.ensure(name + " leaves its arguments unchanged", z3.And(x == c[0], y == c[1]))


@spec("C15", G + "cl_int")
def cl_int(v):
    ps, cs, r, d2, D, E = setup(v)
    p1, p2, d = cs
    o = v.call(G + "cl_int", ps[0], r, ps[1], ps[2])
    v.ensure("cl_int never fails (%s)" % o.excname, o.ok)
    if not o.ok:
        return
    untouched(v, ps, cs, "cl_int")
    pts = v.items(o.value)
    v.ensure("at most two points", len(pts) <= 2)
    v.ensure("a secant gives two points, a tangent one, a miss none",
             {0: E < -TOL, 1: z3.And(E >= -TOL, E <= TOL), 2: E > TOL}.get(len(pts), z3.BoolVal(False)))
    qs = [xy(v, q) for q in pts]
    for x, y in qs:
        v.ensure("every point lies on the line", (x - p2[0]) * d[1] == (y - p2[1]) * d[0])
    if len(qs) == 2:
        al = []
        for x, y in qs:
            v.ensure("every point lies on the circle",
                     (x - p1[0]) * (x - p1[0]) + (y - p1[1]) * (y - p1[1]) == r * r)
        (x1, y1), (x2, y2) = qs
        v.ensure("the two points differ", z3.Or(x1 != x2, y1 != y2))
        # the two points are the foot of the perpendicular -+ the half chord: their mean is the foot
        v.ensure("the two points are symmetric about the foot of the perpendicular",
                 z3.And((x1 + x2 - 2 * p1[0]) * d2 == 2 * D * d[1], (y1 + y2 - 2 * p1[1]) * d2 == -2 * D * d[0]))
    if len(qs) == 1:
        x, y = qs[0]
        v.ensure("a tangent point is the foot of the perpendicular from the centre",
                 (x - p1[0]) * d[0] + (y - p1[1]) * d[1] == 0)


@spec("C15")
def complete(v):
    """Lemmas: what the contract above means for the common points of circle and line."""
    r, D, d2, t, E, w = [v.real(n) for n in ("r", "D", "d2", "t", "E", "w")]
    # a point of the line at signed distance w (scaled: w*w = squared distance * d2) from the foot
    # has squared distance (D*D + w*w)/d2 from the centre
    v.assume(z3.And(d2 > TOL, E == r * r * d2 - D * D))
    on = D * D + w * w == r * r * d2
    v.ensure("no point of a line that misses is on the circle", z3.Implies(E < 0, z3.Not(on)))
    v.ensure("the common points of a secant are exactly those at the half chord", on == (w * w == E))
    v.ensure("common points near a tangent are within tolerance of the foot", z3.Implies(z3.And(on, E <= TOL), w * w <= TOL))


@spec("C15", G + "cr_int")
def cr_int(v):
    ps, cs, r, d2, D, E = setup(v)
    p1, p2, d = cs
    lo = v.call(G + "cl_int", ps[0], r, ps[1], ps[2])
    o = v.call(G + "cr_int", ps[0], r, ps[1], ps[2])
    v.ensure("cr_int never fails (%s)" % o.excname, o.ok and lo.ok)
    if not (o.ok and lo.ok):
        return
    untouched(v, ps, cs, "cr_int")
    ls, rs = [xy(v, q) for q in v.items(lo.value)], [xy(v, q) for q in v.items(o.value)]
    same = lambda a, b: z3.And(a[0] == b[0], a[1] == b[1])
    front = lambda a: (a[0] - p2[0]) * d[0] + (a[1] - p2[1]) * d[1] >= -TOL
    v.ensure("the ray has no more points than the line", len(rs) <= len(ls))
    for q in rs:
        v.ensure("every point of the ray is a point of the line", z3.Or(*[same(q, l) for l in ls]) if ls else False)
        v.ensure("no point of the ray is behind its origin", front(q))
    for l in ls:
        v.ensure("a point of the line that is not behind the origin is returned",
                 z3.Or(z3.Not(front(l)), *[same(q, l) for q in rs]))
