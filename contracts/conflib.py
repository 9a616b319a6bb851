"""Configurations with any number of named points."""
import z3
from pyvc.values import *
from pyvc.ops import *

CONF = "solver.geometric.configuration:Configuration"
VEC = "solver.geometry:Vector"


def points_of(v, rep):
    """Membership and coordinates of a mapping as functions of the name."""
    def xy(n):
        p = rep.val(n)
        if not isinstance(p, Obj):
            raise Unsupported("a point that is not a vector")
        return v.r(v.attr(p, "x")), v.r(v.attr(p, "y"))
    return rep.dom, xy


def sym_mapping(v, base):
    """An arbitrary dictionary from names to vectors."""
    D = z3.Function(base + "_names", U, B)
    X, Y = z3.Function(base + "_x", U, R), z3.Function(base + "_y", U, R)
    probe = v.new(VEC, v.ctx.const("px", R), v.ctx.const("py", R))
    sh = v.it.shape(probe)
    fs = v.it.flatten(probe, sh)
    px, py = v.attr(probe, "x"), v.attr(probe, "y")

    def val(u):
        # the layout of a vector: each leaf is one of its coordinates
        u = v.it.to_u(u)
        return v.it.unflatten(sh, [z3.substitute(t, (px, X(u)), (py, Y(u))) for t in fs])
    d = v.ctx.new(DictV(SDict(lambda u: D(v.it.to_u(u)), val, SU, sh)))
    return d, D, lambda u: (X(u), Y(u))


def sym_conf(v, base, flag=None):
    """A configuration made by the constructor from an arbitrary mapping, with any status flag."""
    d, D, P = sym_mapping(v, base)
    c = v.new(CONF, d)
    v.it.set_attr(c, "underconstrained", v.bool(base + "_under") if flag is None else flag)
    return c, D, P, d


def names_points(v, c):
    m = v.attr(c, "mapping")
    if not isinstance(m, DictV):
        raise Unsupported("the mapping is not a dictionary")
    return points_of(v, m.rep)


def is_conf(v, name, o, olds):
    v.ensure(name + " returns", o.ok)
    if not o.ok:
        return False
    good = isinstance(o.value, Obj) and o.value.cls is v.it.get_class(CONF)
    v.ensure(name + " gives a configuration", good)
    if good:
        v.ensure(name + " gives a new configuration", all(o.value is not c for c in olds))
    return good


def has_points(v, name, c, D, P, n=None):
    """The configuration has exactly the names D with the points P."""
    n = n if n is not None else v.u("n")
    dom, xy = names_points(v, c)
    v.ensure(name + ": exactly the right names", zb(dom(n)) == zb(D(n)))
    x, y = xy(n)
    wx, wy = P(n)
    v.ensure(name + ": the right coordinates", z3.Implies(zb(D(n)), z3.And(x == wx, y == wy)))


def unchanged(v, name, c, D, P, flag):
    has_points(v, name + " leaves the operand unchanged", c, D, P)
    v.ensure(name + " leaves the status of the operand unchanged", v.true(v.attr(c, "underconstrained")) == zb(flag))
