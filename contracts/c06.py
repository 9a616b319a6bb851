"""C06: reachability and connected components are exact."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from pyvc.ops import FS, IN
from pyvc import invariants
from contracts.graphlib import *


def member(v, rep):
    if isinstance(rep, SDict):
        return lambda x: zb(rep.dom(x))
    if isinstance(rep, SSet):
        return lambda x: zb(rep.mem(x))
    r = v.it.slist_rep(rep)
    return lambda x: zb(r.mem(x))


class Search(invariants.LoopContract):
    """Roles: `seen`, the vertices found (dictionary or set); `front`, the worklist."""
    name, kind = "reachability search", "while"

    def __init__(self, v, V, A, R, vertex):
        self.v, self.V, self.A, self.R, self.vertex = v, V, A, R, vertex

    def match(self, it, s, env, source=None):
        d, l = invariants.env_cells(env, (DictV, SetV)), invariants.env_cells(env, ListV)
        d = [(n, c) for n, c in d if n not in ("kwargs",)]
        if len(d) != 1 or len(l) != 1:
            return None
        return {"seen": (d[0][1], d[0][0]), "front": (l[0][1], l[0][0])}

    def inv(self, st, done):
        seen, front = member(self.v, st["seen"]), member(self.v, st["front"])
        return [("only reachable vertices are found", [U], lambda x: z3.Implies(z3.Or(seen(x), front(x)), z3.And(self.R(x), self.V(x)))),
                ("the vertex itself is found", [], lambda: z3.Or(seen(self.vertex), front(self.vertex))),
                ("neighbours of found vertices are found or to do", [U, U],
                 lambda x, y: z3.Implies(z3.And(seen(x), zb(self.A(x, y))), z3.Or(seen(y), front(y))))]

    def variant(self, before, after):
        X = self.v.ctx.const("X", U)
        n0, n1 = [self.v.it.int_term(self.v.it.slist_rep(s["front"]).len) for s in (before, after)]
        d0, d1 = [member(self.v, s["seen"]) for s in (before, after)]
        x = z3.Const("vx", U)
        return [("found vertices are never lost", z3.Implies(d0(X), d1(X))),
                ("a round finds a vertex or shortens the worklist", z3.Or(n1 < n0, z3.Exists([x], z3.And(d1(x), z3.Not(d0(x))))))]


def search(name, call, adj, *functions):
    @spec("C06", *[GRAPH + "." + f for f in functions], name=name)
    def s(v):
        g = sym_graph(v)
        V, E, W = g.state()
        a = v.u("vertex")
        v.assume(V(a))
        v.cover()
        A = lambda x, y: adj(E, x, y)
        # the least set with the vertex and closed under neighbours
        R = z3.Function("reach", U, B)
        x, y = z3.Consts("hx hy", U)
        v.assume(R(a))
        v.assume(z3.ForAll([x, y], z3.Implies(z3.And(R(x), zb(A(x, y))), R(y))))
        invariants.install(v, Search(v, V, A, R, a))
        before = set(cells(v, g.obj))
        out = call(v, g.obj, a)
        v.ensure(name + " raises nothing", out.ok)
        if not out.ok:
            return
        X, Y = vars2(v)
        v.ensure(name + " leaves the graph as it was", same_state(v, g.state(), (V, E, W), X, Y))
        v.ensure(name + " leaves the graph well formed", g.mirror(X, Y))
        good = isinstance(out.value, ListV)
        v.ensure(name + " gives a list", good)
        if not good:
            return
        v.ensure(name + " gives a list of its own", id(out.value) not in before)
        r = v.it.slist_rep(out.value.rep)
        mem = lambda z: zb(r.mem(z))
        v.ensure(name + " lists only reachable vertices", z3.Implies(mem(X), R(X)))
        v.ensure(name + " does not list the vertex itself", z3.Not(mem(a)))
        v.ensure(name + " lists each once", zb(r.nodup))
        P = lambda z: z3.Or(mem(z), z == a)
        v.ensure("the listed vertices and the vertex are closed under neighbours", z3.Implies(z3.And(P(X), zb(A(X, Y))), P(Y)))
        # leastness of `reach`, at that closed set
        v.assume(z3.ForAll([x], z3.Implies(R(x), P(x))))
        v.ensure(name + " lists every reachable vertex", z3.Implies(z3.And(R(X), X != a), mem(X)))


both = lambda E, x, y: Or(E(x, y), E(y, x))
into = lambda E, x, y: E(y, x)
out_ = lambda E, x, y: E(x, y)
search("connected", lambda v, g, a: v.meth(g, "connected", a), both, "connected", "adjacent_vertices")
search("connected_both", lambda v, g, a: v.meth(g, "connected", a, ingoing=True, outgoing=True), both, "connected")
search("connected_ingoing", lambda v, g, a: v.meth(g, "connected", a, ingoing=True, outgoing=False), into, "connected", "ingoing_vertices")
search("connected_outgoing", lambda v, g, a: v.meth(g, "connected", a, ingoing=False, outgoing=True), out_, "connected", "outgoing_vertices")
search("connected_positional", lambda v, g, a: v.meth(g, "connected", a, False, True), out_, "connected")
search("connected_via_ingoing", lambda v, g, a: v.meth(g, "connected_via_ingoing", a), into, "connected_via_ingoing")
search("connected_via_outgoing", lambda v, g, a: v.meth(g, "connected_via_outgoing", a), out_, "connected_via_outgoing")


class Subsets(invariants.LoopContract):
    """Roles: `rest`, the set of vertices to do; `found`, the set of sets."""
    name, kind = "components", "while"

    def __init__(self, v, V, C, cls):
        self.v, self.V, self.C, self.cls = v, V, C, cls
        self.SF = Shape("F")

    def match(self, it, s, env, source=None):
        d = invariants.env_cells(env, (DictV, SetV, ListV))
        rest = [(n, c) for n, c in d if isinstance(c, SetV) and c.rep.elems is None or isinstance(c, ListV) and isinstance(c.rep, SList)]
        found = [(n, c) for n, c in d if isinstance(c, SetV) and c.rep.elems == ()]
        if len(d) != 2 or len(rest) != 1 or len(found) != 1:
            return None
        return {"rest": (rest[0][1], rest[0][0]), "found": (found[0][1], found[0][0])}

    def fresh(self, v, role, cell):
        if role == "rest":
            return invariants.fresh_rep(v, role, cell)
        f = v.ctx.func_("i_found", FS, B)
        return SSet(lambda x: f(*v.it.flatten(x, self.SF)), self.SF, None)

    def found(self, st, c):
        return zb(st["found"].mem(self.v.it.unflatten(self.SF, [c])))

    def inv(self, st, done):
        rest = member(self.v, st["rest"])
        w = z3.Const("w", U)
        return [("only vertices are to do", [U], lambda x: z3.Implies(rest(x), self.V(x))),
                ("components are to do as a whole", [U, U], lambda x, y: z3.Implies(z3.And(rest(x), self.C(x, y)), rest(y))),
                ("the component of every vertex done is found", [U],
                 lambda x: z3.Implies(z3.And(self.V(x), z3.Not(rest(x))), self.found(st, self.cls(x)))),
                ("only components of vertices done are found", [FS], lambda c: z3.Implies(
                    self.found(st, c), z3.Exists([w], z3.And(self.V(w), z3.Not(rest(w)), c == self.cls(w)))))]

    def variant(self, before, after):
        r0, r1 = member(self.v, before["rest"]), member(self.v, after["rest"])
        x, X = z3.Const("vx", U), self.v.ctx.const("X", U)
        return [("nothing is added to what is to do", z3.Implies(r1(X), r0(X))),
                ("less is to do after each round", z3.Exists([x], z3.And(r0(x), z3.Not(r1(x)))))]


@spec("C06", GRAPH + ".connected_subsets", name="connected_subsets")
def connected_subsets(v):
    g = sym_graph(v)
    V, E, W = g.state()
    A = lambda x, y: zb(Or(E(x, y), E(y, x)))
    # reach(a, .) is the least set with a that is closed under neighbours
    C = z3.Function("reach2", U, U, B)
    a, b, c = z3.Consts("ha hb hc", U)
    v.assume(z3.ForAll([a], C(a, a)))
    v.assume(z3.ForAll([a, b, c], z3.Implies(z3.And(C(a, b), A(b, c)), C(a, c))))
    v.cover()
    X, Y = vars2(v)
    Z = v.ctx.const("Z", U)
    # leastness of reach(b, .) at the closed set reach(a, .), which has b
    trans = z3.ForAll([a, b, c], z3.Implies(z3.And(C(a, b), C(b, c)), C(a, c)))
    v.assume(trans)
    # leastness of reach(a, .) at { x : reach(x, a) }
    v.ensure("lemma: the vertices that reach a vertex are closed under neighbours", z3.Implies(z3.And(C(X, Z), A(X, Y)), C(Y, Z)))
    v.assume(z3.ForAll([a, b], z3.Implies(C(a, b), C(b, a))))
    # leastness of reach(a, .) at the vertices, for a vertex a
    v.ensure("lemma: the vertices are closed under neighbours", z3.Implies(z3.And(zb(V(X)), A(X, Y)), zb(V(Y))))
    v.assume(z3.ForAll([a, b], z3.Implies(z3.And(zb(V(a)), C(a, b)), zb(V(b)))))
    cls = z3.Function("component", U, FS)
    v.ctx.axiom(z3.ForAll([a, b], IN(cls(a), b) == C(a, b), patterns=[IN(cls(a), b)]))
    v.it.fset_axioms()

    def connected(v, self, vertex, ingoing, outgoing):
        if self is not g.obj or ingoing is not True or outgoing is not True:
            return MISSING
        vertex = v.it.to_u(vertex)
        v.ensure("connected is asked about a vertex", zb(V(vertex)))
        return v.ctx.new(ListV(v.it.fresh_list_of(lambda x: z3.And(C(vertex, v.it.to_u(x)), v.it.to_u(x) != vertex), SU, True, "conn")))
    v.use(GRAPH + ".connected", connected)
    L = Subsets(v, lambda x: zb(V(x)), C, cls)
    invariants.install(v, L)
    out = v.meth(g.obj, "connected_subsets")
    v.ensure("connected_subsets raises nothing", out.ok)
    if not out.ok:
        return
    v.ensure("connected_subsets leaves the graph as it was", same_state(v, g.state(), (V, E, W), X, Y))
    v.ensure("connected_subsets leaves the graph well formed", g.mirror(X, Y))
    good = isinstance(out.value, (SetV, ListV))
    v.ensure("connected_subsets gives a set", good)
    if not good:
        return
    rep = out.value.rep if isinstance(out.value, SetV) else v.it.slist_rep(out.value.rep)
    if rep.ekind != L.SF:
        raise Unsupported("connected_subsets gives no set of frozensets")
    mem = lambda c: zb(rep.mem(v.it.unflatten(L.SF, [c])))
    c = v.ctx.const("c", FS)
    w = z3.Const("w", U)
    v.ensure("every vertex's component is given", z3.Implies(zb(V(X)), mem(cls(X))))
    v.ensure("only components are given", z3.Implies(mem(c), z3.Exists([w], z3.And(zb(V(w)), c == cls(w)))))
    # components partition the vertices
    v.ensure("components cover the vertices", z3.Implies(zb(V(X)), IN(cls(X), X)))
    v.ensure("components have only vertices", z3.Implies(z3.And(zb(V(X)), IN(cls(X), Y)), zb(V(Y))))
    v.ensure("overlapping components coincide", z3.Implies(z3.And(zb(V(X)), zb(V(Y)), IN(cls(X), Z), IN(cls(Y), Z)),
                                                        z3.And(C(X, Y), IN(cls(X), a) == IN(cls(Y), a))))
