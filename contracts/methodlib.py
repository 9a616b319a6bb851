"""Method graphs with any variables and methods: the abstract state and its invariant."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import *

M = "solver.method:"
MG = M + "MethodGraph"

# a method: the variables it reads and determines (the contract of Method: immutable, so the same each time)
INP, OUT = z3.Function("reads", U, U, B), z3.Function("determines", U, U, B)
# a method is never the name of a variable
KIND = z3.Function("is_method", U, B)


def term_list(v, name, MEM):
    """The list a method keeps, as a function of the method; it may have repetitions."""
    L, AT, ND = z3.Function(name + ".len", U, I), z3.Function(name + ".at", U, I, U), z3.Function(name + ".nodup", U, B)
    m, x = z3.Consts("hm hx", U)
    i = z3.Const("hi", I)
    v.ctx.axiom(z3.ForAll([m], L(m) >= 0, patterns=[L(m)]))
    v.ctx.axiom(z3.ForAll([m, i], z3.Implies(z3.And(i >= 0, i < L(m)), MEM(m, AT(m, i))), patterns=[AT(m, i)]))
    v.ctx.axiom(z3.ForAll([m, x], z3.Implies(MEM(m, x), L(m) > 0), patterns=[MEM(m, x)]))

    def get(it, u):
        r = ListV(SList(L(u), lambda i: AT(u, it.int_term(i)), lambda x: MEM(u, it.to_u(x)), ND(u), SU))
        r.frozen = True
        return r
    return get


def use_methods(v, execute=None):
    a = dict(v.ctx.opaque_attrs)
    a["inputs"] = term_list(v, "inputs", INP)
    a["outputs"] = term_list(v, "outputs", OUT)
    if execute is not None:
        a["execute"] = execute
    v.ctx.opaque_attrs = a


class State(object):
    """The abstract state of a method graph: Mt methods, Vr variables, VAL values, CH changed variables."""

    def __init__(self, v, g):
        for n in ("_map", "_methods", "_changed"):
            if not isinstance(g.slots.get(n), DictV):
                raise Unsupported("method graph representation")
        if not is_graph(v, g.slots.get("_graph")):
            raise Unsupported("method graph representation")
        m, t, c = [g.slots[n].rep for n in ("_map", "_methods", "_changed")]
        self.v, self.g = v, g
        self.Vr, self.Mt, self.CH = (lambda x: zb(m.dom(x))), (lambda x: zb(t.dom(x))), (lambda x: zb(c.dom(x)))
        self.known_empty = m.keys == ()
        self.VAL = lambda x: v.it.to_u(m.val(x))
        self.graph = G(v, g.slots["_graph"]).state()

    def inv(self, X, Y, Z):
        Vr, Mt, CH = self.Vr, self.Mt, self.CH
        W, E, _ = self.graph
        return [("variables are no methods", z3.Implies(Vr(X), z3.Not(KIND(X)))),
                ("methods are methods", z3.Implies(Mt(X), KIND(X))),
                ("the graph has the variables and the methods as vertices", zb(W(X)) == z3.Or(Vr(X), Mt(X))),
                ("dependencies run exactly from inputs to methods and from methods to outputs",
                 zb(E(X, Y)) == edge(Mt, X, Y)),
                ("the variables of methods are registered", z3.Implies(z3.And(Mt(X), z3.Or(INP(X, Y), OUT(X, Y))), Vr(Y))),
                ("a variable is determined by at most one method", z3.Implies(z3.And(Mt(X), Mt(Y), OUT(X, Z), OUT(Y, Z)), X == Y)),
                ("only variables are pending", z3.Implies(CH(X), Vr(X)))]


def edge(Mt, x, y):
    return z3.Or(z3.And(Mt(y), INP(y, x)), z3.And(Mt(x), OUT(x, y)))


RANK, N = z3.Function("rank", U, I), z3.Int("ranks")


def put_state(v, g, Vr, Mt, VAL, CH):
    uu = v.it.to_u
    W = z3.Function("g.W", U, U, U)
    v.ctx.put(g.slots["_map"], "rep", SDict(lambda x: Vr(uu(x)), lambda x: VAL(uu(x)), SU, SU))
    v.ctx.put(g.slots["_methods"], "rep", SDict(lambda x: Mt(uu(x)), lambda x: v.ctx.uconst(1), SU, SU))
    v.ctx.put(g.slots["_changed"], "rep", SDict(lambda x: CH(uu(x)), lambda x: v.ctx.uconst(1), SU, SU))
    v.it.write_view(g.slots["_graph"], lambda x: Or(Vr(x), Mt(x)), lambda x, y: edge(Mt, x, y), lambda x, y: W(x, y))


def facts(v, Vr, Mt, CH, rank=None, n=None):
    """The invariant of a state, as assumptions."""
    x, y, z = z3.Consts("hx hy hz", U)
    v.assume(z3.ForAll([x], z3.Implies(Vr(x), z3.Not(KIND(x))), patterns=[Vr(x)]))
    v.assume(z3.ForAll([x], z3.Implies(Mt(x), KIND(x)), patterns=[Mt(x)]))
    v.assume(z3.ForAll([x, y], z3.Implies(z3.And(Mt(x), INP(x, y)), Vr(y)), patterns=[INP(x, y)]))
    v.assume(z3.ForAll([x, y], z3.Implies(z3.And(Mt(x), OUT(x, y)), Vr(y)), patterns=[OUT(x, y)]))
    v.assume(z3.ForAll([x, y, z], z3.Implies(z3.And(Mt(x), Mt(y), OUT(x, z), OUT(y, z)), x == y)))
    v.assume(z3.ForAll([x], z3.Implies(CH(x), Vr(x)), patterns=[CH(x)]))
    if rank is not None:
        # no cycles: dependencies go up in rank
        v.assume(z3.ForAll([x], z3.And(rank(x) >= 0, rank(x) < n), patterns=[rank(x)]))
        v.assume(z3.ForAll([x, y], z3.Implies(z3.And(Mt(x), INP(x, y)), rank(y) < rank(x)), patterns=[INP(x, y)]))
        v.assume(z3.ForAll([x, y], z3.Implies(z3.And(Mt(x), OUT(x, y)), rank(x) < rank(y)), patterns=[OUT(x, y)]))


def sym(v, execute=None):
    """Any well-formed method graph."""
    use_methods(v, execute)
    g = v.new(MG)
    State(v, g)
    Vr, Mt, CH, VAL = z3.Function("Vr", U, B), z3.Function("Mt", U, B), z3.Function("CH", U, B), z3.Function("VAL", U, U)
    put_state(v, g, Vr, Mt, VAL, CH)
    facts(v, Vr, Mt, CH, RANK, N)
    use_remove_vertex(v, g.slots["_graph"])
    return g, State(v, g)


def vars3(v):
    return v.ctx.const("X", U), v.ctx.const("Y", U), v.ctx.const("Z", U)


def well_formed(v, name, g, rank=RANK, n=N):
    X, Y, Z = vars3(v)
    s = State(v, g)
    for k, f in s.inv(X, Y, Z):
        v.ensure("%s: %s" % (name, k), f)
    v.ensure(name + ": no cycle (dependencies go up in rank)", z3.Implies(zb(s.graph[1](X, Y)), z3.And(rank(X) < rank(Y), rank(X) >= 0, rank(Y) < n)))
    v.ensure(name + ": the dependency graph is well formed", G(v, g.slots["_graph"]).mirror(X, Y))


def state_is(v, name, g, Vr, Mt, VAL, CH=None, value=True):
    """Exactly these variables, methods and values."""
    s = State(v, g)
    X, _, _ = vars3(v)
    v.ensure(name + ": variables", s.Vr(X) == Vr(X))
    v.ensure(name + ": methods", s.Mt(X) == Mt(X))
    if value:
        v.ensure(name + ": values", True if s.known_empty else z3.Implies(Vr(X), s.VAL(X) == VAL(X)))
    if CH is not None:
        v.ensure(name + ": pending changes", s.CH(X) == CH(X))
    for q, want in (("variables", Vr), ("methods", Mt)):
        o = v.meth(g, q)
        v.ensure(q + " reported", o.ok)
        if o.ok:
            v.ensure(name + ": %s() reports them" % q, v.true(v.it.contains(o.value, X)) == want(X))


def exception(v, out, name):
    """Is the outcome an exception of (a subclass of) this class of the repository?"""
    return not out.ok and out.excname == name
