"""C23: a constraint graph reports exactly the constraints on variables."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import *

K = "solver.geometric.constraint:"
CG = K + "ConstraintGraph"

# which names a constraint mentions (the contract of Constraint.variables: a new list of the names each time)
MENT = z3.Function("mentions", U, U, B)
# a constraint is never the name of a variable
KIND = z3.Function("is_constraint", U, B)


def use_constraints(v):
    def variables(it, c):
        def call(*a, **k):
            mem = lambda x: MENT(c, it.to_u(x))
            return it.ctx.new(ListV(it.fresh_list_of(mem, SU, it.ctx.const("nd", B), "ment")))
        call.spec_callable = True
        return call
    a = dict(v.ctx.opaque_attrs)
    a["variables"] = variables
    v.ctx.opaque_attrs = a
    x, y = z3.Consts("hx hy", U)
    v.ctx.axiom(z3.ForAll([x, y], z3.Implies(z3.And(KIND(x), MENT(x, y)), z3.Not(KIND(y))), patterns=[MENT(x, y)]))


class State(object):
    """The abstract state of a constraint graph: names and registered constraints."""

    def __init__(self, v, g):
        for n in ("_variables", "_constraints"):
            if not isinstance(g.slots.get(n), DictV):
                raise Unsupported("constraint graph representation")
        if not is_graph(v, g.slots.get("_graph")):
            raise Unsupported("constraint graph representation")
        self.v, self.g = v, g
        self.V, self.C = [g.slots[n].rep.dom for n in ("_variables", "_constraints")]
        self.graph = G(v, g.slots["_graph"]).state()

    def inv(self, X, Y):
        """Well-formedness at X, Y."""
        V, C = (lambda n: zb(self.V(n))), (lambda n: zb(self.C(n)))
        W, E, _ = self.graph
        return [z3.Implies(V(X), z3.Not(KIND(X))), z3.Implies(C(X), KIND(X)),
                zb(W(X)) == z3.Or(V(X), C(X)), zb(E(X, Y)) == z3.And(C(Y), MENT(Y, X)),
                z3.Implies(z3.And(C(Y), MENT(Y, X)), V(X))]


NAMES = ("names are names", "constraints are constraints", "the graph has the names and the constraints as vertices",
         "the edges run from exactly the mentioned names to their constraints", "mentioned names are registered")


def sym(v):
    """Any well-formed constraint graph."""
    use_constraints(v)
    g = v.new(CG)
    State(v, g)
    V, C = z3.Function("V", U, B), z3.Function("C", U, B)
    uu = v.it.to_u
    for n, D in (("_variables", V), ("_constraints", C)):
        v.ctx.put(g.slots[n], "rep", SDict(lambda x, D=D: D(uu(x)), lambda x: v.ctx.uconst(None), SU, SU))
    x, y = z3.Consts("hx hy", U)
    v.assume(z3.ForAll([x], z3.Implies(V(x), z3.Not(KIND(x))), patterns=[V(x)]))
    v.assume(z3.ForAll([x], z3.Implies(C(x), KIND(x)), patterns=[C(x)]))
    v.assume(z3.ForAll([x, y], z3.Implies(z3.And(C(y), MENT(y, x)), V(x)), patterns=[MENT(y, x)]))
    W = z3.Function("g.W", U, U, U)
    v.it.write_view(g.slots["_graph"], lambda x: Or(V(x), C(x)), lambda x, y: And(C(y), MENT(y, x)), lambda x, y: W(x, y))
    return g, V, C


def well_formed(v, name, g):
    X, Y = vars2(v)
    for n, f in zip(NAMES, State(v, g).inv(X, Y)):
        v.ensure("%s: %s" % (name, n), f)
    v.ensure(name + ": the dependency graph is well formed", G(v, g.slots["_graph"]).mirror(X, Y))


def contents(v, name, g, V2, C2):
    s = State(v, g)
    X, _ = vars2(v)
    v.ensure(name + ": variables", zb(s.V(X)) == zb(V2(X)))
    v.ensure(name + ": constraints", zb(s.C(X)) == zb(C2(X)))
    for q, want in (("variables", V2), ("constraints", C2)):
        o = v.meth(g, q)
        v.ensure(q + " reported", o.ok)
        if o.ok:
            v.ensure(name + ": %s() reports them" % q, v.true(v.it.contains(o.value, X)) == zb(want(X)))


@spec("C23", CG + ".__init__", CG + ".variables", CG + ".constraints")
def new(v):
    use_constraints(v)
    g = v.new(CG)
    well_formed(v, "a new constraint graph", g)
    contents(v, "a new constraint graph", g, lambda x: False, lambda x: False)


def update(name, arg, V2, C2, kind):
    @spec("C23", CG + "." + name, name=name)
    def s(v):
        g, V, C = sym(v)
        a = v.u(arg)
        v.assume(KIND(a) if kind else z3.Not(KIND(a)))
        v.cover()
        o = v.meth(g, name, a)
        v.ensure(name + " raises nothing", o.ok)
        if not o.ok:
            return
        v.ensure(name + " returns nothing", o.value is None)
        well_formed(v, name, g)
        contents(v, name, g, lambda x: V2(V, C, x, a), lambda x: C2(V, C, x, a))


update("add_variable", "name", lambda V, C, x, a: z3.Or(V(x), x == a), lambda V, C, x, a: C(x), False)
update("rem_variable", "name", lambda V, C, x, a: z3.And(V(x), x != a),
       lambda V, C, x, a: z3.And(C(x), z3.Not(z3.And(V(a), MENT(x, a)))), False)
update("add_constraint", "constraint", lambda V, C, x, a: z3.Or(V(x), z3.And(MENT(a, x))),
       lambda V, C, x, a: z3.Or(C(x), x == a), True)
update("rem_constraint", "constraint", lambda V, C, x, a: V(x), lambda V, C, x, a: z3.And(C(x), x != a), True)


def members(v, name, g, o, want):
    v.ensure(name + " raises nothing", o.ok)
    if not o.ok:
        return
    good = isinstance(o.value, ListV)
    v.ensure(name + " gives a list", good)
    if good:
        X, _ = vars2(v)
        v.ensure(name + " reports exactly the right constraints", v.true(v.it.contains(o.value, X)) == zb(want(X)))
        v.ensure(name + " reports each once", zb(v.it.slist_rep(o.value.rep).nodup))
        v.ensure(name + " gives a list of its own", not (set(cells(v, g)) & set(cells(v, o.value))))


def same(v, name, g, V, C):
    well_formed(v, name + " (state)", g)
    contents(v, name + " changes nothing", g, lambda x: V(x), lambda x: C(x))


@spec("C23", CG + ".get_constraints_on")
def on(v):
    g, V, C = sym(v)
    a = v.u("name")
    v.assume(z3.Not(KIND(a)))
    v.cover()
    o = v.meth(g, "get_constraints_on", a)
    members(v, "get_constraints_on", g, o, lambda x: z3.And(C(x), MENT(x, a)))
    same(v, "get_constraints_on", g, V, C)


def several(name, kind, want):
    @spec("C23", CG + "." + name, name=name + "_" + kind)
    def s(v):
        g, V, C = sym(v)
        x = z3.Const("hx", U)
        if kind == "list":
            l, mem = sym_list(v, "l")
            v.assume(z3.ForAll([x], z3.Implies(mem(x), z3.Not(KIND(x))), patterns=[mem(x)]))
            some, everyone = (lambda f: z3.Exists([x], z3.And(mem(x), f(x)))), (lambda f: z3.ForAll([x], z3.Implies(mem(x), f(x))))
        else:
            names = [v.u("n%d" % i) for i in range(int(kind))]
            for n in names:
                v.assume(z3.Not(KIND(n)))
            l = v.list(names)
            some, everyone = (lambda f: z3.Or(*[f(n) for n in names])), (lambda f: z3.And(*[f(n) for n in names], len(names) > 0))
            mem = lambda x: z3.Or(*[x == n for n in names])
        v.cover()
        o = v.meth(g, name, l)
        members(v, name, g, o, lambda c: want(V, C, c, mem, some, everyone))
        same(v, name, g, V, C)


for _k in ("0", "list"):
    several("get_constraints_on_all", _k, lambda V, C, c, mem, some, everyone: z3.And(
        C(c), some(lambda n: True), everyone(lambda n: MENT(c, n))))
    several("get_constraints_on_any", _k, lambda V, C, c, mem, some, everyone: z3.And(C(c), some(lambda n: MENT(c, n))))
