"""C17: orientation predicates."""
import z3
from pyvc.verify import spec
from contracts.c12 import xy

TOL = z3.RealVal("1/100000000")
NAMES = ("is_clockwise", "is_counterclockwise", "is_flat")


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])


def three(v):
    ps = [v.vec(n) for n in ("p1", "p2", "p3")]
    cs = [(v.inputs[n + ".x"], v.inputs[n + ".y"]) for n in ("p1", "p2", "p3")]
    return ps, cs


def classes(cr):
    return {"is_clockwise": cr < -TOL, "is_counterclockwise": cr > TOL, "is_flat": z3.And(cr >= -TOL, cr <= TOL)}


def mk(name):
    @spec("C17", "solver.geometry:" + name, name=name)
    def s(v):
        ps, cs = three(v)
        v.cover()
        o = v.call("solver.geometry:" + name, *ps)
        v.ensure(name + " never fails", o.ok)
        if o.ok:
            v.ensure(name + " gives a truth value", v.isbool(o.value))
            v.ensure(name + " is decided by the cross product and the absolute tolerance",
                     v.true(o.value) == classes(cross(*cs))[name])
        for p, c in zip(ps, cs):
            x, y = xy(v, p)
            v.ensure(name + " leaves the points unchanged", z3.And(x == c[0], y == c[1]))


for _n in NAMES:
    mk(_n)


@spec("C17")
def laws(v):
    """Consequences of the three contracts."""
    ps, (a, b, c) = three(v)
    k = classes(cross(a, b, c))
    v.ensure("exactly one class", z3.PbEq([(x, 1) for x in k.values()], 1))
    r = classes(cross(c, b, a))
    v.ensure("reversal swaps clockwise and counter-clockwise",
             z3.And(r["is_clockwise"] == k["is_counterclockwise"], r["is_counterclockwise"] == k["is_clockwise"],
                    r["is_flat"] == k["is_flat"]))
    for name, pts in (("cyclic renaming", (b, c, a)), ("cyclic renaming twice", (c, a, b))):
        q = classes(cross(*pts))
        v.ensure(name + " changes nothing", z3.And(*[q[n] == k[n] for n in NAMES]))
    t = (v.real("tx"), v.real("ty"))
    q = classes(cross(*[(p[0] + t[0], p[1] + t[1]) for p in (a, b, c)]))
    v.ensure("translation changes nothing", z3.And(*[q[n] == k[n] for n in NAMES]))
