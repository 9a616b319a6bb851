"""C05: path search returns a real path, or nothing only when none exists."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from pyvc import invariants
from contracts.graphlib import *


class Search(invariants.LoopContract):
    """Roles: `trails`, a dictionary from vertices to lists; `todo`, the worklist."""

    def __init__(self, v, E, start, end):
        self.v, self.E, self.start, self.end = v, E, start, end
        self.cells = None

    def fresh(self, v, role, cell):
        ctx = v.ctx
        if role != "trails":
            return invariants.fresh_rep(v, role, cell)
        uu = v.it.to_u
        T, L = ctx.func_("t_dom", U, B), ctx.func_("t_len", U, I)
        A, M, N = ctx.func_("t_at", U, I, U), ctx.func_("t_mem", U, U, B), ctx.func_("t_nd", U, B)

        def val(x):
            x = uu(x)
            r = ListV(SList(L(x), lambda i: A(x, v.it.int_term(i)), lambda y: M(x, uu(y)), N(x), SU))
            r.frozen = True
            return r
        return SDict(lambda x: T(uu(x)), val, SU, None)

    def trail(self, st, x):
        r = st["trails"].val(x)
        if isinstance(r, ListV):
            r = r.rep
        if not isinstance(r, (SList, CList)):
            raise Unsupported("the trails are no lists")
        r = self.v.it.slist_rep(r)
        return self.v.it.int_term(r.len), lambda i: self.v.it.to_u(r.at(i))

    def real(self, st, x, i):
        """The trail of x runs from the start to x along edges."""
        n, at = self.trail(st, x)
        return z3.And(n >= 1, at(z3.IntVal(0)) == self.start, at(n - 1) == x,
                      z3.Implies(z3.And(i >= 0, i < n - 1), zb(self.E(at(i), at(i + 1)))))

    def common(self, st, pending):
        dom = lambda x: zb(st["trails"].dom(x))
        todo = lambda x: zb(self.v.it.slist_rep(st["todo"]).mem(x))
        return [("the start has a trail", [], lambda: dom(self.start)),
                ("trails are real paths from the start", [U, I], lambda x, i: z3.Implies(dom(x), self.real(st, x, i))),
                ("the worklist has trails", [U], lambda x: z3.Implies(todo(x), dom(x))),
                ("the worklist has no repetitions", [], lambda: zb(self.v.it.slist_rep(st["todo"]).nodup)),
                ("vertices with trails but not to do have no edge to the end or to vertices without a trail", [U, U],
                 lambda x, y: z3.Implies(z3.And(dom(x), z3.Not(todo(x)), zb(self.E(x, y))),
                                         z3.Or(z3.And(dom(y), y != self.end), zb(pending(y)))))]


class Outer(Search):
    name, kind = "search", "while"

    def match(self, it, s, env, source=None):
        d, l = invariants.env_cells(env, DictV), invariants.env_cells(env, ListV)
        if len(d) != 1 or len(l) != 1:
            return None
        return {"trails": (d[0][1], d[0][0]), "todo": (l[0][1], l[0][0])}

    def inv(self, st, done):
        self.now = st
        return self.common(st, lambda y: False)

    def variant(self, before, after):
        X = self.v.ctx.const("X", U)
        n0, n1 = [self.v.it.int_term(self.v.it.slist_rep(s["todo"]).len) for s in (before, after)]
        d0, d1 = [(lambda x, s=s: zb(s["trails"].dom(x))) for s in (before, after)]
        x = z3.Const("vx", U)
        return [("trails are never lost", z3.Implies(d0(X), d1(X))),
                ("a round adds trails or shortens the worklist",
                 z3.Or(n1 < n0, z3.Exists([x], z3.And(d1(x), z3.Not(d0(x)))))),
                ("trails are only for vertices", z3.Implies(z3.And(d1(X), z3.Not(d0(X))), zb(self.V(X))))]


class Inner(Search):
    name, kind = "neighbours", "for"

    def __init__(self, *a):
        Search.__init__(self, *a)

    def match(self, it, s, env, source=None):
        d, l = invariants.env_cells(env, DictV), invariants.env_cells(env, ListV)
        l = [(n, c) for n, c in l if not c.frozen]
        if len(d) != 1 or len(l) != 1 or source.sorts != [U]:
            return None
        self.entry = {"trails": d[0][1].rep, "todo": l[0][1].rep}
        return {"trails": (d[0][1], d[0][0]), "todo": (l[0][1], l[0][0])}

    def inv(self, st, done):
        mem = lambda y: self.mem(y)
        d0, d1 = [(lambda x, s=s: zb(s["trails"].dom(x))) for s in (self.entry, st)]
        n0, n1 = [self.v.it.int_term(self.v.it.slist_rep(s["todo"]).len) for s in (self.entry, st)]
        x = z3.Const("vx", U)
        return self.common(st, lambda y: z3.And(mem(y), z3.Not(zb(done(y))))) + [
            ("trails are never lost", [U], lambda X: z3.Implies(d0(X), d1(X))),
            ("trails are only for vertices", [U], lambda X: z3.Implies(z3.And(d1(X), z3.Not(d0(X))), zb(self.V(X)))),
            ("the worklist grows only with new trails", [], lambda: z3.Or(n1 == n0, z3.Exists([x], z3.And(d1(x), z3.Not(d0(x))))))]


@spec("C05", GRAPH + ".path", name="path")
def path(v):
    g = sym_graph(v)
    V, E, W = g.state()
    start, end = v.u("start"), v.u("end")
    v.assume(And(V(start), V(end)))
    v.cover()
    a = (v, lambda x, y: E(x, y), start, end)
    o, i = Outer(*a), Inner(*a)
    o.V = i.V = V
    invariants.install(v, o, i)
    before = set(cells(v, g.obj))
    out = v.meth(g.obj, "path", start, end)
    v.ensure("path raises nothing", out.ok)
    if not out.ok:
        return
    X, Y = vars2(v)
    v.ensure("path leaves the graph as it was", same_state(v, g.state(), (V, E, W), X, Y))
    v.ensure("path leaves the graph well formed", g.mirror(X, Y))
    v.ensure("path gives a list", isinstance(out.value, ListV))
    if not isinstance(out.value, ListV):
        return
    v.ensure("path gives a list of its own", id(out.value) not in before)
    r = v.it.slist_rep(out.value.rep)
    n = v.it.int_term(r.len)
    if v.split(n == 0):
        # a set of vertices that has the start, is closed under edges and has no edge to the end
        st = o.now
        P = lambda x: zb(st["trails"].dom(x))
        p, m, k = v.ctx.func_("p", I, U), v.int("m"), v.int("k")
        j = z3.Const("hj", I)
        # any walk from the start with m >= 1 edges
        v.assume(m >= 1)
        v.assume(p(0) == start)
        v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), zb(E(p(j), p(j + 1)))), patterns=[p(j)]))
        v.ensure("walks from the start stay among vertices with trails: at the start", P(p(z3.IntVal(0))))
        v.ensure("walks from the start stay among vertices with trails: at every step",
                 z3.Implies(z3.And(k >= 0, k + 1 < m, P(p(k))), P(p(k + 1))))
        v.ensure("no such walk ends at the end", z3.Implies(P(p(m - 1)), p(m) != end))
        return
    v.ensure("a path has an edge", n >= 2)
    v.ensure("a path begins at the start", v.it.to_u(r.at(0)) == start)
    v.ensure("a path ends at the end", v.it.to_u(r.at(n - 1)) == end)
    i = v.int("i")
    v.ensure("a path follows edges", z3.Implies(z3.And(i >= 0, i < n - 1), zb(E(v.it.to_u(r.at(i)), v.it.to_u(r.at(i + 1))))))
