"""C20: configuration operations are exact and leave their operands unchanged."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.conflib import *


def start(v, base="a"):
    c, D, P, d = sym_conf(v, base)
    return c, D, P, d, v.inputs[base + "_under"]


@spec("C20", CONF + ".__init__", CONF + ".makehash", CONF + ".vars", CONF + ".get")
def construct(v):
    d, D, P = sym_mapping(v, "m")
    v.cover()
    try:
        c = v.new(CONF, d)
    except PyRaise:
        v.ensure("a configuration can be made of any mapping", False)
        return
    has_points(v, "a new configuration", c, D, P)
    v.ensure("a new configuration is not marked underconstrained", z3.Not(v.true(v.attr(c, "underconstrained"))))
    dom, xy = points_of(v, d.rep)
    n = v.u("n")
    v.ensure("the mapping it was built from is not changed", z3.And(zb(dom(n)) == D(n), z3.Implies(D(n), z3.And(xy(n)[0] == P(n)[0], xy(n)[1] == P(n)[1]))))
    o = v.meth(c, "vars")
    v.ensure("vars returns", o.ok)
    if o.ok:
        v.ensure("vars gives exactly the names", v.true(v.it.contains(o.value, n)) == D(n))
    o = v.meth(c, "get", n)
    if o.ok:
        v.ensure("get gives the point of a name", z3.And(D(n), v.r(v.attr(o.value, "x")) == P(n)[0], v.r(v.attr(o.value, "y")) == P(n)[1]))
    else:
        v.ensure("get of an unknown name is a KeyError", z3.And(z3.Not(D(n)), o.excname == "KeyError"))
    has_points(v, "queries leave it alone", c, D, P)
    # later changes of the mapping do not show
    e = v.ctx.new(DictV(v.it.empty_dict()))
    v.it.set_item(d, v.u("k"), v.new(VEC, v.real("nx"), v.real("ny")))
    has_points(v, "a later change of the mapping does not show", c, D, P)


@spec("C20", CONF + ".copy")
def copy(v):
    c, D, P, d, fl = start(v)
    v.cover()
    o = v.meth(c, "copy")
    if is_conf(v, "copy", o, [c]):
        has_points(v, "copy", o.value, D, P)
        v.ensure("copy has the same status", v.true(v.attr(o.value, "underconstrained")) == fl)
    unchanged(v, "copy", c, D, P, fl)


@spec("C20", CONF + ".transform")
def transform(v):
    c, D, P, d, fl = start(v)
    T = [[v.real("t%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    t = v.new("solver.geometry:Matrix", v.list([v.list(r) for r in T]))
    hom = lambda n: [T[i][0] * P(n)[0] + T[i][1] * P(n)[1] + T[i][2] for i in range(3)]
    # a homogeneous transform maps every point to a finite point
    n = z3.Const("hn", U)
    v.assume(z3.ForAll([n], z3.Implies(D(n), hom(n)[2] != 0), patterns=[D(n)]))
    v.cover()
    o = v.meth(c, "transform", t)
    if is_conf(v, "transform", o, [c]):
        k = v.u("n")
        dom, xy = names_points(v, o.value)
        v.ensure("transform keeps the names", zb(dom(k)) == D(k))
        h = hom(k)
        x, y = xy(k)
        v.ensure("transform maps every point by the homogeneous transform",
                 z3.Implies(z3.And(D(k), h[2] != 0), z3.And(x * h[2] == h[0], y * h[2] == h[1])))
    unchanged(v, "transform", c, D, P, fl)
    e = v.attr(t, "elements")
    v.ensure("transform leaves the matrix unchanged", And(*[v.r(a) == b for x, r in zip(v.items(e), T) for a, b in zip(v.items(x), r)]))


@spec("C20", CONF + ".add")
def add(v):
    c, D, P, d, fl = start(v)
    b, E, Q, e, fb = start(v, "b")
    v.cover()
    o = v.meth(c, "add", b)
    if is_conf(v, "add", o, [c, b]):
        has_points(v, "add", o.value, lambda n: z3.Or(D(n), E(n)),
                   lambda n: tuple(z3.If(D(n), x, y) for x, y in zip(P(n), Q(n))))
    unchanged(v, "add", c, D, P, fl)
    unchanged(v, "add", b, E, Q, fb)


@spec("C20", CONF + ".add", name="add_itself")
def add_itself(v):
    c, D, P, d, fl = start(v)
    v.cover()
    o = v.meth(c, "add", c)
    if is_conf(v, "add of itself", o, [c]):
        has_points(v, "add of itself", o.value, D, P)
    unchanged(v, "add of itself", c, D, P, fl)


def selection(kind):
    @spec("C20", CONF + ".select", name="select_" + kind)
    def s(v):
        c, D, P, d, fl = start(v)
        S = z3.Function("sel", U, B)
        mem = lambda u: S(v.it.to_u(u))
        if kind == "set":
            l = v.ctx.new(SetV(SSet(mem, SU)))
        else:
            l = v.ctx.new(ListV(v.it.fresh_list_of(mem, SU, v.ctx.const("nd", B))))
        n = z3.Const("hn", U)
        known = z3.ForAll([n], z3.Implies(S(n), D(n)), patterns=[S(n)])
        v.cover()
        o = v.meth(c, "select", l)
        if o.ok:
            if is_conf(v, "select", o, [c]):
                has_points(v, "select", o.value, lambda n: S(n), P)
            k = v.u("n")
            v.ensure("selecting an unknown name does not go unnoticed", z3.Implies(S(k), D(k)))
        else:
            v.ensure("select fails only for an unknown name, with a KeyError", z3.And(z3.Not(known), o.excname == "KeyError"))
        unchanged(v, "select", c, D, P, fl)


selection("set")
selection("list")
