"""C01/C02: the two views mirror each other; updates change exactly what they name."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import *


def effect(prop, name, args, V2, E2, W2, pre=None, raises=None, kw=()):
    """Specification of an update: new V, E, W as functions of the old ones and the arguments, and the
    condition under which it raises instead and changes nothing."""
    qual = GRAPH + "." + name

    @spec(prop, qual, name=name + ("_" + "_".join(kw) if kw else ""))
    def s(v):
        g = sym_graph(v)
        V, E, W = g.state()
        a = [v.u(n) for n in args]
        bad = raises(V, E, *a) if raises else False
        v.cover()
        o = v.meth(g.obj, name, *a)
        X, Y = vars2(v)
        n = g.state()
        if bad is not False:
            v.ensure(name + " raises exactly when what it names is absent", zb(bad) if not o.ok else Not(bad))
        else:
            v.ensure(name + " raises nothing", o.ok)
        if prop == "C01":
            v.ensure(name + ": every edge leaves and enters alike, with one value, between vertices", g.mirror(X, Y))
            return
        if not o.ok:
            v.ensure("a refused " + name + " changes nothing",
                     And(zb(n[0](X)) == zb(V(X)), zb(n[1](X, Y)) == zb(E(X, Y)), Implies(E(X, Y), n[2](X, Y) == W(X, Y))))
            return
        v.ensure(name + ": vertices", zb(n[0](X)) == zb(V2(V, E, X, *a)))
        v.ensure(name + ": edges", zb(n[1](X, Y)) == zb(E2(V, E, X, Y, *a)))
        v.ensure(name + ": values", Implies(E2(V, E, X, Y, *a), n[2](X, Y) == W2(E, W, v, X, Y, *a)))
        v.ensure(name + " returns nothing", o.value is None)


def is_e(X, Y, a, b):
    return z3.And(X == a, Y == b)


def is_bi(X, Y, a, b):
    return z3.Or(is_e(X, Y, a, b), is_e(X, Y, b, a))


def ops(prop):
    keepV = lambda V, E, X, *a: V(X)
    keepE = lambda V, E, X, Y, *a: E(X, Y)
    keepW = lambda E, W, v, X, Y, *a: W(X, Y)
    one = lambda v: v.ctx.uconst(1)
    effect(prop, "add_vertex", ["a"], lambda V, E, X, a: Or(V(X), X == a), keepE, keepW)
    effect(prop, "remove_vertex", ["a"], lambda V, E, X, a: And(V(X), X != a),
           lambda V, E, X, Y, a: And(E(X, Y), X != a, Y != a), keepW, raises=lambda V, E, a: Not(V(a)))
    effect(prop, "add_edge", ["a", "b"], lambda V, E, X, a, b: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b: Or(E(X, Y), is_e(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b: z3.If(zb(E(X, Y)), W(X, Y), one(v)))
    effect(prop, "add_edge", ["a", "b", "val"], lambda V, E, X, a, b, w: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b, w: Or(E(X, Y), is_e(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b, w: z3.If(zb(E(X, Y)), W(X, Y), w), kw=("value",))
    effect(prop, "remove_edge", ["a", "b"], keepV, lambda V, E, X, Y, a, b: And(E(X, Y), Not(is_e(X, Y, a, b))), keepW,
           raises=lambda V, E, a, b: Not(E(a, b)))
    effect(prop, "add_bi_edge", ["a", "b"], lambda V, E, X, a, b: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b: Or(E(X, Y), is_bi(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b: z3.If(zb(E(X, Y)), W(X, Y), one(v)))
    effect(prop, "add_bi_edge", ["a", "b", "val"], lambda V, E, X, a, b, w: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b, w: Or(E(X, Y), is_bi(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b, w: z3.If(zb(E(X, Y)), W(X, Y), w), kw=("value",))
    effect(prop, "remove_bi_edge", ["a", "b"], keepV, lambda V, E, X, Y, a, b: And(E(X, Y), Not(is_bi(X, Y, a, b))), keepW,
           raises=lambda V, E, a, b: Not(And(E(a, b), E(b, a))))
    effect(prop, "set", ["a", "b", "val"], lambda V, E, X, a, b, w: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b, w: Or(E(X, Y), is_e(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b, w: z3.If(is_e(X, Y, a, b), w, W(X, Y)))
    effect(prop, "set_bi_edge", ["a", "b", "val"], lambda V, E, X, a, b, w: Or(V(X), X == a, X == b),
           lambda V, E, X, Y, a, b, w: Or(E(X, Y), is_bi(X, Y, a, b)),
           lambda E, W, v, X, Y, a, b, w: z3.If(is_bi(X, Y, a, b), w, W(X, Y)))


ops("C01")


@spec("C01", GRAPH + ".__init__")
def new_graph(v):
    g = G(v, v.new(GRAPH))
    X, Y = vars2(v)
    V, E, W = g.state()
    v.ensure("a new graph is well formed", g.mirror(X, Y))
    v.ensure("a new graph is empty", And(Not(V(X)), Not(E(X, Y))))
