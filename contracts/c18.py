"""C18: three-point angles."""
import z3
from pyvc.verify import spec, R
from contracts.c12 import xy
from contracts.c17 import three, cross, TOL
from contracts.c11 import teq, absr


def arms(cs):
    a, b, c = cs
    return (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])


def norm(v, p):
    return v._sqrt(p[0] * p[0] + p[1] * p[1])


def setup(v):
    ps, cs = three(v)
    p, q = arms(cs)
    lp, lq = norm(v, p), norm(v, q)
    dot, crs = p[0] * q[0] + p[1] * q[1], p[0] * q[1] - p[1] * q[0]
    v.identity("Lagrange's identity", dot * dot + crs * crs ==
               (p[0] * p[0] + p[1] * p[1]) * (q[0] * q[0] + q[1] * q[1]))
    return ps, cs, lp, lq, dot


def untouched(v, ps, cs, name):
    for p, c in zip(ps, cs):
        x, y = xy(v, p)
        v.ensure(name + " leaves the points unchanged", z3.And(x == c[0], y == c[1]))


@spec("C18", "solver.geometry:angle_3p", name="angle_degenerate")
def degenerate(v):
    ps, cs, lp, lq, dot = setup(v)
    v.assume(z3.Or(lp <= TOL, lq <= TOL))
    v.cover()
    o = v.call("solver.geometry:angle_3p", *ps)
    v.ensure("no failure on a degenerate triple", o.ok)
    v.ensure("the angle of a degenerate triple is None", o.ok and o.value is None)
    for n in ("is_acute", "is_obtuse"):
        q = v.call("solver.geometry:" + n, *ps)
        v.ensure(n + " of a degenerate triple is false", q.ok and z3.Not(v.true(q.value)))
    untouched(v, ps, cs, "angle_3p")


def proper(v):
    """Specification angle of a proper triple: acos of the normalised dot product, negative when
    counter-clockwise."""
    ps, cs, lp, lq, dot = setup(v)
    v.assume(z3.And(lp > TOL, lq > TOL))
    v.cover()
    t = v.ctx.const("cosine", R)
    v.ctx.axiom(t * (lp * lq) == dot)          # definition: the divisor is positive
    v.lemma("Cauchy-Schwarz", z3.And(t <= 1, t >= -1))
    w = v.it.math_acos(t)
    return ps, cs, t, w, cross(*cs) > TOL


@spec("C18", "solver.geometry:angle_3p", name="angle_proper")
def angle_proper(v):
    ps, cs, t, w, ccw = proper(v)
    o = v.call("solver.geometry:angle_3p", *ps)
    v.ensure("no failure on a proper triple", o.ok)
    if not o.ok:
        return
    v.ensure("a proper triple has an angle", o.value is not None)
    a = v.r(o.value)
    pi = v.ctx.get_pi()
    v.ensure("the angle is acos of the normalised dot product, negative exactly when counter-clockwise",
             a == z3.If(ccw, -w, w))
    untouched(v, ps, cs, "angle_3p")


@spec("C18")
def angle_range(v):
    ps, cs, t, w, ccw = proper(v)
    pi = v.ctx.get_pi()
    a = z3.If(ccw, -w, w)
    v.ensure("the angle lies in [-pi, pi]", z3.And(a >= -pi, a <= pi))


def kind(name, want):
    @spec("C18", "solver.geometry:" + name, name=name)
    def s(v):
        ps, cs, t, w, ccw = proper(v)
        o = v.call("solver.geometry:" + name, *ps)
        v.ensure(name + " never fails", o.ok)
        if o.ok:
            h = v.ctx.get_pi() / 2
            v.ensure(name + " compares the magnitude of the angle with a right angle",
                     v.true(o.value) == z3.And(want(w, h), z3.Not(teq(w, h))))
        untouched(v, ps, cs, name)


kind("is_acute", lambda a, h: a < h)
kind("is_obtuse", lambda a, h: a > h)


def rounded(name):
    @spec("C18", "solver.geometry:" + name, name="rounding_" + name,
          note="every arithmetic result is any real within relative 1e-15 of the exact one, same sign")
    def s(v):
        ps, cs = three(v)
        v.ctx.rounding = True
        o = v.call("solver.geometry:" + name, *ps)
        v.ensure("rounding never makes %s fail (%s)" % (name, o.excname), o.ok)


for _n in ("angle_3p", "is_acute", "is_obtuse"):
    rounded(_n)
