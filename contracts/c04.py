"""C04: queries report exactly the stored edge relation."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import *


def unchanged(v, g, old, name):
    X, Y = vars2(v)
    v.ensure(name + " does not change the graph", And(same_state(v, g.state(), old, X, Y), g.mirror(X, Y)))


def test(name, n, want):
    @spec("C04", GRAPH + "." + name, name=name)
    def s(v):
        g = sym_graph(v)
        old = g.state()
        a = [v.u("a"), v.u("b")][:n]
        v.cover()
        o = v.meth(g.obj, name, *a)
        v.ensure(name + " raises nothing", o.ok)
        if o.ok:
            v.ensure(name + " gives a truth value", v.isbool(o.value))
            v.ensure(name + " is exact", v.true(o.value) == zb(want(*(old[:2] + tuple(a)))))
        unchanged(v, g, old, name)


test("has_vertex", 1, lambda V, E, a: V(a))
test("has_edge", 2, lambda V, E, a, b: E(a, b))
test("has_bi_edge", 2, lambda V, E, a, b: And(E(a, b), E(b, a)))
test("has_any_edge", 2, lambda V, E, a, b: Or(E(a, b), E(b, a)))


@spec("C04", GRAPH + ".get")
def get(v):
    g = sym_graph(v)
    old = g.state()
    a, b = v.u("a"), v.u("b")
    v.cover()
    o = v.meth(g.obj, "get", a, b)
    v.ensure("get succeeds exactly on edges", zb(old[1](a, b)) if o.ok else Not(old[1](a, b)))
    if o.ok:
        v.ensure("get gives the value of the edge", v.it.to_u(o.value) == old[2](a, b))
    unchanged(v, g, old, "get")


def listing(name, n, want, pairs=False, pre=True):
    @spec("C04", GRAPH + "." + name, name=name)
    def s(v):
        g = sym_graph(v)
        old = g.state()
        V, E, W = old
        a = [v.u("a")][:n]
        if n:
            v.assume(V(a[0]))
        v.cover()
        o = v.meth(g.obj, name, *a)
        v.ensure(name + " raises nothing", o.ok)
        if not o.ok:
            return
        v.ensure(name + " gives a list", isinstance(o.value, ListV))
        X, Y = vars2(v)
        v.ensure(name + " is a fresh list", not (set(cells(v, g.obj)) & set(cells(v, o.value))))
        x = (X, Y) if pairs else X
        v.ensure(name + " lists exactly the right elements",
                 zb(v.it.contains(o.value, x)) == zb(want(V, E, X, Y, *a)))
        rep = v.it.slist_rep(o.value.rep)
        v.ensure(name + " lists each once", zb(rep.nodup))
        if pairs and isinstance(o.value.rep, SList):
            sh = o.value.rep.ekind
            v.ensure(name + " lists pairs", sh is None or sh.kind == "tuple" and len(sh.args) == 2)
        unchanged(v, g, old, name)


listing("vertices", 0, lambda V, E, X, Y: V(X))
listing("edges", 0, lambda V, E, X, Y: E(X, Y), pairs=True)
listing("outgoing_vertices", 1, lambda V, E, X, Y, a: E(a, X))
listing("ingoing_vertices", 1, lambda V, E, X, Y, a: E(X, a))
listing("adjacent_vertices", 1, lambda V, E, X, Y, a: Or(E(X, a), E(a, X)))
listing("outgoing_edges", 1, lambda V, E, X, Y, a: And(X == a, E(X, Y)), pairs=True)
listing("ingoing_edges", 1, lambda V, E, X, Y, a: And(Y == a, E(X, Y)), pairs=True)
listing("adjacent_edges", 1, lambda V, E, X, Y, a: And(E(X, Y), Or(X == a, Y == a)), pairs=True)
