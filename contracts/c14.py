"""C14: circle-circle intersection.

Notation of the specification: d the distance of the centres, e the unit vector from the first to the second,
u = ((r1^2 - r2^2)/d + d)/2 the signed distance of the chord from the first centre, h^2 = r1^2 - u^2 the squared
half chord.  The common points of the circles are p1 + u e +- h e' (e' = e turned by 90 degrees)."""
import z3
from pyvc.verify import spec, R
from contracts.c12 import xy
from contracts.c17 import TOL
from contracts.c11 import teq, absr

G = "solver.geometry:"
EPS2 = z3.RealVal("1/10000000000000000")


@spec("C14", G + "cc_int")
def cc_int(v):
    p1, p2 = v.vec("p1"), v.vec("p2")
    x1, y1, x2, y2 = [v.inputs[n] for n in ("p1.x", "p1.y", "p2.x", "p2.y")]
    r1, r2 = v.real("r1"), v.real("r2")
    v.assume(z3.And(r1 >= 0, r2 >= 0))
    v.cover()
    dx, dy = x2 - x1, y2 - y1
    d = v._sqrt(dx * dx + dy * dy)
    o = v.call(G + "cc_int", p1, r1, p2, r2)
    v.ensure("cc_int never fails (%s)" % o.excname, o.ok)
    if not o.ok:
        return
    for p, x, y in ((p1, x1, y1), (p2, x2, y2)):
        a, b = xy(v, p)
        v.ensure("cc_int leaves the centres unchanged", z3.And(a == x, b == y))
    pts = v.items(o.value)
    v.ensure("at most two points", len(pts) <= 2)
    far = d > TOL
    u, h2 = v.ctx.const("u", R), v.ctx.const("h2", R)
    v.ctx.axiom(z3.Implies(d > 0, 2 * d * u == r1 * r1 - r2 * r2 + d * d))
    v.ctx.axiom(h2 == r1 * r1 - u * u)
    apart = z3.And(h2 < 0, z3.Not(teq(r1 * r1, u * u)))
    if not pts:
        v.ensure("no point only when the centres coincide or the circles are apart or nested beyond tolerance",
                 z3.Or(z3.Not(far), apart))
        return
    v.ensure("points only when the centres differ", far)
    v.ensure("points only when the circles are neither apart nor nested beyond tolerance", z3.Not(apart))
    small = absr(u) <= TOL
    ks = []
    for q in pts:
        x, y = xy(v, q)
        x, y = x - x1, y - y1
        # coordinates along and across the line of centres, times d
        a, k = x * dx + y * dy, x * dy - y * dx
        v.ensure("every point is on the chord line (exactly unless the chord passes the first centre)",
                 z3.Or(a == u * d, z3.And(small, a == 0)))
        v.ensure("every point is at the half chord from the line of centres, the circles meeting",
                 z3.Implies(z3.And(h2 >= 0, z3.Not(small)), k * k == h2 * d * d))
        v.ensure("every point is at the half chord from the line of centres, the circles barely apart",
                 z3.Implies(z3.And(h2 < 0, z3.Not(small)), k == 0))
        v.ensure("every point is at the half chord from the line of centres, the chord through the first centre",
                 z3.Implies(small, z3.Or(z3.And(h2 >= 0, k * k == h2 * d * d), z3.And(h2 < 0, k == 0),
                                         k * k == r1 * r1 * d * d)))
        ks.append(k)
    h = v._sqrt(h2)
    touch = z3.If(small, r1 <= TOL * d, z3.Or(h2 <= 0, h <= TOL * absr(u)))
    if len(pts) == 1:
        v.ensure("one point only when the circles touch within tolerance", touch)
    else:
        v.ensure("two points only when the circles do not merely touch", z3.Not(touch))
        v.ensure("the two points are mirror images", ks[0] == -ks[1])


@spec("C14")
def meaning(v):
    """Lemmas: the points described by the contract are the common points of the circles."""
    d, u, h2, r1, r2, a, k = [v.real(n) for n in ("d", "u", "h2", "r1", "r2", "a", "k")]
    v.assume(z3.And(d > TOL, r1 >= 0, r2 >= 0, 2 * d * u == r1 * r1 - r2 * r2 + d * d, h2 == r1 * r1 - u * u))
    # a: coordinate along the line of centres, k: across
    on1, on2 = a * a + k * k == r1 * r1, (a - d) * (a - d) + k * k == r2 * r2
    v.ensure("the common points are exactly those on the chord at the half chord",
             z3.And(on1, on2) == z3.And(a == u, k * k == h2))
    v.ensure("circles that are apart or nested have no common point", z3.Implies(h2 < 0, z3.Not(z3.And(on1, on2))))
    small = z3.And(u <= TOL, u >= -TOL)
    v.ensure("a chord within tolerance of the first centre: deviation of the returned point",
             z3.Implies(z3.And(small, k * k == r1 * r1, h2 >= 0),
                        z3.And(k * k - h2 <= EPS2, k * k - h2 >= 0)))
    v.ensure("clamped half chord: deviation from the first circle within tolerance",
             z3.Implies(z3.And(h2 < 0, teq(r1 * r1, u * u), a == u, k == 0),
                        z3.And(a * a + k * k - r1 * r1 >= 0,
                               a * a + k * k - r1 * r1 <= TOL + u * u / 100000)))
