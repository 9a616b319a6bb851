"""C03: copies, subgraphs and reversed graphs are exact and independent."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import *


def derived(name, functions, run, V2, E2, W2, label):
    @spec("C03", *functions, name=name)
    def s(v):
        g = sym_graph(v)
        old = g.state()
        v.cover()
        o, extra = run(v, g)
        v.ensure(label + " raises nothing", o.ok)
        if not o.ok:
            return
        v.ensure(label + " is a graph", is_graph(v, o.value))
        h = G(v, o.value)
        X, Y = vars2(v)
        n = h.state()
        V, E, W = old
        e2 = E2(V, E, X, Y, *extra)
        v.ensure(label + ": vertices", zb(n[0](X)) == zb(V2(V, X, *extra)))
        v.ensure(label + ": edges", zb(n[1](X, Y)) == zb(e2))
        v.ensure(label + ": values", Implies(e2, n[2](X, Y) == W2(W, X, Y)))
        v.ensure(label + " is well formed", h.mirror(X, Y))
        v.ensure(label + " leaves the original unchanged", same_state(v, g.state(), old, X, Y))
        v.ensure("the original stays well formed", g.mirror(X, Y))
        v.ensure(label + " shares no mutable state with the original", disjoint(v, g.obj, o.value))


same = (lambda V, X: V(X), lambda V, E, X, Y: E(X, Y), lambda W, X, Y: W(X, Y))


def construct(v, g):
    from pyvc.verify import Out
    try:
        return Out(v.new(GRAPH, g.obj)), ()
    except PyRaise as e:
        return Out(exc=e), ()


derived("copy_constructor", [GRAPH + ".__init__"], construct, *same, label="a graph built from a graph")
derived("copy", [GRAPH + ".copy", GRAPH + ".subgraph"], lambda v, g: (v.meth(g.obj, "copy"), ()), *same, label="a copy")


def sub(make):
    def run(v, g):
        c, mem = make(v, "wanted")
        return v.meth(g.obj, "subgraph", c), (mem,)
    return run


subspec = (lambda V, X, m: And(V(X), m(X)), lambda V, E, X, Y, m: And(E(X, Y), m(X), m(Y)), lambda W, X, Y: W(X, Y))
derived("subgraph_of_a_list", [GRAPH + ".subgraph"], sub(sym_list), *subspec, label="a subgraph")
derived("subgraph_of_a_set", [GRAPH + ".subgraph"], sub(sym_set), *subspec, label="a subgraph")
derived("reverse", [GRAPH + ".reverse"], lambda v, g: (v.meth(g.obj, "reverse"), ()),
        lambda V, X: V(X), lambda V, E, X, Y: E(Y, X), lambda W, X, Y: W(Y, X), label="a reversed graph")
