"""C28: distances and angles as geometric relations."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *

Q = "solver.geometric.relation:"


def both_hashes(v, o, p):
    return v.it.int_term(v.it.py_hash(o)), v.it.int_term(v.it.py_hash(p))


def eq_both(v, o, p, label, want):
    a, b = v.it.eq(o, p), v.it.eq(p, o)
    v.ensure(label, zb(a) == zb(want))
    v.ensure(label + " (asked the other way round)", zb(b) == zb(want))
    return a


@spec("C28", Q + "Distance.__eq__", Q + "Distance.__init__", Q + "PointRelation.__hash__")
def distances(v):
    a, b, c, d = [v.u(n) for n in "abcd"]
    v.assume(z3.And(a != b, c != d))
    v.cover()
    o, p = v.new(Q + "Distance", a, b), v.new(Q + "Distance", c, d)
    e = eq_both(v, o, p, "equal exactly when they join the same points",
                z3.Or(z3.And(a == c, b == d), z3.And(a == d, b == c)))
    h, k = both_hashes(v, o, p)
    v.ensure("equal distances hash alike", z3.Implies(zb(e), h == k))


@spec("C28", Q + "Angle.__eq__", Q + "Angle.__init__", Q + "PointRelation.__hash__")
def angles(v):
    a, b, c = [v.u(n) for n in "abc"]
    d, e, f = [v.u(n) for n in "def"]
    v.assume(z3.And(z3.Distinct(a, b, c), z3.Distinct(d, e, f)))
    v.cover()
    o, p = v.new(Q + "Angle", a, b, c), v.new(Q + "Angle", d, e, f)
    q = eq_both(v, o, p, "equal exactly when middle and outer points agree",
                z3.And(b == e, z3.Or(z3.And(a == d, c == f), z3.And(a == f, c == d))))
    h, k = both_hashes(v, o, p)
    v.ensure("equal angles hash alike", z3.Implies(zb(q), h == k))


@spec("C28", Q + "Distance.__eq__", Q + "Angle.__eq__")
def itself(v):
    a, b, c, d, e = [v.u(n) for n in "abcde"]
    v.assume(z3.And(a != b, z3.Distinct(c, d, e)))
    v.cover()
    for o in (v.new(Q + "Distance", a, b), v.new(Q + "Angle", c, d, e)):
        v.ensure("a relation equals itself", zb(v.it.eq(o, o)))
        h, k = both_hashes(v, o, o)
        v.ensure("the hash of a relation is fixed", h == k)


@spec("C28", Q + "Distance.__eq__", Q + "Angle.__eq__")
def mixed(v):
    a, b, c, d, e = [v.u(n) for n in "abcde"]
    v.cover()
    o, p = v.new(Q + "Distance", a, b), v.new(Q + "Angle", c, d, e)
    eq_both(v, o, p, "a distance never equals an angle", False)
    x = v.u("x")
    for r in (o, p):
        for other in (None, 1, "text", (a, b)):
            q = v.it.call_attr(r, "__eq__", [other])
            v.ensure("a relation equals no other thing", q is NotImplemented or z3.Not(v.true(q)))
