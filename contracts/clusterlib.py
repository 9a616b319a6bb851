"""Symbolic clusters: an arbitrary rigid, balloon or hedgehog on arbitrary points."""
import z3
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import sym_list, sym_set, cells

CL = "solver.geometric.cluster:"
KINDS = ("Rigid", "Balloon", "Hedgehog")


def cluster(v, kind, name):
    """A cluster built by its constructor from any list of points (that it accepts); its points and, for a hedgehog,
    its centre and outer points."""
    l, mem = sym_list(v, name + ".points")
    cls = v.it.get_class(CL + kind)
    try:
        if kind == "Hedgehog":
            c = v.u(name + ".c")
            o = v.it.instantiate(cls, [c, l], {})
            outer = lambda x: z3.And(mem(x), x != c)
            return o, (lambda x: z3.Or(mem(x), x == c)), (c, outer)
        o = v.it.instantiate(cls, [l], {})
        return o, mem, None
    except PyRaise:
        raise PathEnd()


def points(v, s):
    """Membership of a set of the interpreted program."""
    if not isinstance(s, SetV):
        raise Unsupported("cluster representation")
    return lambda x: zb(s.rep.mem(x))


def snapshot(v, c):
    return {k: (x, x.slots.get("rep") if isinstance(x, Mut) else None) for k, x in c.slots.items()}


def unchanged(v, c, before, what):
    """The attributes hold the same things with the same content."""
    X = v.ctx.const("X", U)
    v.ensure(what + " keeps the attributes", set(c.slots) == set(before))
    for k, (x, rep) in before.items():
        y = c.slots.get(k)
        if isinstance(x, SetV) and isinstance(y, SetV):
            if y.rep is not rep:
                v.ensure(what + " leaves %s as it was" % k, zb(y.rep.mem(X)) == zb(rep.mem(X)))
        elif isinstance(x, Mut):
            if y is not x or y.slots.get("rep") is not rep:
                raise Unsupported("cluster attribute %s" % k)
        else:
            v.ensure(what + " leaves %s as it was" % k, zb(v.it.eq(x, y)))
