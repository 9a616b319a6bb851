"""C16: intersections of lines and rays."""
import z3
from pyvc.verify import spec, R
from contracts.c12 import xy
from contracts.c17 import TOL

G = "solver.geometry:"
NAMES = ("p1", "v1", "p2", "v2")


def setup(v):
    ps = [v.vec(n) for n in NAMES]
    cs = [(v.inputs[n + ".x"], v.inputs[n + ".y"]) for n in NAMES]
    return ps, cs


def untouched(v, ps, cs, name):
    for p, c in zip(ps, cs):
        x, y = xy(v, p)
        v.ensure(name + " leaves its arguments unchanged", z3.And(x == c[0], y == c[1]))


def mk(name, rays):
    @spec("C16", G + name, name=name)
    def s(v):
        ps, cs = setup(v)
        p1, v1, p2, v2 = cs
        f = v1[0] * v2[1] - v1[1] * v2[0]
        v.cover()
        o = v.call(G + name, *ps)
        v.ensure(name + " never fails on a valid input (%s)" % o.excname, o.ok)
        if not o.ok:
            return
        untouched(v, ps, cs, name)
        pts = v.items(o.value)
        par = z3.And(f >= -TOL, f <= TOL)
        v.ensure(name + " returns at most one point", len(pts) <= 1)
        # the common point, from the specification: p1 + t v1 with t f = d x v2
        t = v.ctx.const("t", R)
        v.ctx.axiom(z3.Implies(f != 0, t * f == (p2[0] - p1[0]) * v2[1] - (p2[1] - p1[1]) * v2[0]))
        q = (p1[0] + v1[0] * t, p1[1] + v1[1] * t)
        if pts:
            v.ensure(name + " returns no point for parallel lines", z3.Not(par))
            x, y = xy(v, pts[0])
            v.ensure(name + ": the point lies on the first line", (x - p1[0]) * v1[1] == (y - p1[1]) * v1[0])
            v.ensure(name + ": the point lies on the second line", (x - p2[0]) * v2[1] == (y - p2[1]) * v2[0])
            v.ensure(name + ": the point is the common point", z3.And(x == q[0], y == q[1]))
            q = (x, y)
        front = []
        if "first" in rays:
            front.append((q[0] - p1[0]) * v1[0] + (q[1] - p1[1]) * v1[1] >= -TOL)
        if "second" in rays:
            front.append((q[0] - p2[0]) * v2[0] + (q[1] - p2[1]) * v2[1] >= -TOL)
        if pts:
            v.ensure(name + ": the point is not behind a ray's origin", z3.And(*front))
        else:
            v.ensure(name + " returns the point of lines that are not parallel unless it is behind a ray's origin",
                     z3.Or(par, z3.Not(z3.And(*front))))


mk("ll_int", ())
mk("lr_int", ("second",))
mk("rr_int", ("first", "second"))
