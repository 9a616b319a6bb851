"""C07: a method graph stays well formed and rejects bad methods without trace."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from pyvc import invariants
from contracts.graphlib import *
from contracts.methodlib import *


@spec("C07", MG + ".__init__", MG + ".variables", MG + ".methods")
def new(v):
    use_methods(v)
    g = v.new(MG)
    well_formed(v, "a new method graph", g)
    state_is(v, "a new method graph", g, lambda x: False, lambda x: False, None, lambda x: False)


@spec("C07", MG + ".add_variable", name="add_variable")
def add_variable(v):
    g, s = sym(v)
    a, val = v.u("name"), v.u("value")
    v.assume(z3.Not(KIND(a)))
    v.cover()
    for name, args, w in (("add_variable", (a, val), val), ("add_variable without a value", (a,), v.ctx.uconst(None))):
        if name == "add_variable" and not v.split(v.bool("given")):
            continue
        o = v.meth(g, "add_variable", *args)
        v.ensure(name + " raises nothing", o.ok)
        if o.ok:
            v.ensure(name + " gives nothing", o.value is None)
            well_formed(v, name, g)
            state_is(v, name, g, lambda x: z3.Or(s.Vr(x), x == a), s.Mt, lambda x: z3.If(s.Vr(x), s.VAL(x), w), s.CH)
        return


@spec("C07", MG + ".get", name="get")
def get(v):
    g, s = sym(v)
    a = v.u("name")
    v.assume(z3.Not(KIND(a)))
    v.cover()
    o = v.meth(g, "get", a)
    v.ensure("get is refused for unknown variables only", z3.BoolVal(o.ok) == s.Vr(a))
    if o.ok:
        v.ensure("get gives the value", v.it.to_u(o.value) == s.VAL(a))
    well_formed(v, "get", g)
    state_is(v, "get", g, s.Vr, s.Mt, s.VAL, s.CH)


@spec("C07", MG + ".rem_method", name="rem_method")
def rem_method(v):
    g, s = sym(v)
    m = v.u("method")
    v.assume(KIND(m))
    v.cover()
    o = v.meth(g, "rem_method", m)
    v.ensure("rem_method is refused for unknown methods only", z3.BoolVal(o.ok) == s.Mt(m))
    well_formed(v, "rem_method", g)
    state_is(v, "rem_method", g, s.Vr, lambda x: z3.And(s.Mt(x), x != m), s.VAL, s.CH)


@spec("C07", MG + ".rem_variable", MG + ".rem_method", name="rem_variable")
def rem_variable(v):
    g, s = sym(v)
    a = v.u("name")
    v.assume(z3.Not(KIND(a)))
    v.cover()
    o = v.meth(g, "rem_variable", a)
    v.ensure("rem_variable is refused for unknown variables only", z3.BoolVal(o.ok) == s.Vr(a))
    well_formed(v, "rem_variable", g)
    if o.ok:
        state_is(v, "rem_variable", g, lambda x: z3.And(s.Vr(x), x != a),
                 lambda x: z3.And(s.Mt(x), z3.Not(INP(x, a)), z3.Not(OUT(x, a))), s.VAL,
                 lambda x: z3.And(s.CH(x), x != a))
    else:
        state_is(v, "a refused rem_variable", g, s.Vr, s.Mt, s.VAL, s.CH)


def frame_of_propagation(v, g, name, Mt):
    """Contract of propagation and execution as far as this property goes: only values of determined variables and the
    record of pending changes change."""
    s = State(v, g)
    f, w, c = v.ctx.func_("prop_val", U, U), None, v.ctx.func_("prop_changed", U, B)
    uu = v.it.to_u
    x, m = z3.Consts("hx hm", U)
    det = lambda z: z3.Exists([m], z3.And(s.Mt(m), OUT(m, z)))
    v.ctx.axiom(z3.ForAll([x], z3.Implies(z3.And(s.Vr(x), z3.Not(det(x))), f(x) == s.VAL(x)), patterns=[f(x)]))
    v.ctx.axiom(z3.ForAll([x], z3.Implies(c(x), s.Vr(x)), patterns=[c(x)]))
    Vr = s.Vr
    v.ctx.put(g.slots["_map"], "rep", SDict(lambda z: Vr(uu(z)), lambda z: f(uu(z)), SU, SU))
    v.ctx.put(g.slots["_changed"], "rep", SDict(lambda z: c(uu(z)), lambda z: v.ctx.uconst(1), SU, SU))


def use_frames(v, g, *names):
    def contract(name):
        def c(v, self, *args):
            if self is not g:
                return MISSING
            s = State(v, g)
            if args:
                m = v.it.to_u(args[0])
                if not v.ctx.branch(s.Mt(m)):
                    return MISSING
            well_formed(v, "before " + name, g, *RANKS)
            frame_of_propagation(v, g, name, s.Mt)
            return None
        return c
    for n in names:
        v.use(MG + "." + n, contract(n))


RANKS = [RANK, N]


@spec("C07", MG + ".set", name="set")
def set_(v):
    RANKS[:] = [RANK, N]
    g, s = sym(v)
    use_frames(v, g, "propagate")
    a, val = v.u("name"), v.u("value")
    v.assume(z3.Not(KIND(a)))
    v.cover()
    if v.split(v.bool("propagating")):
        o = v.meth(g, "set", a, val)
        x, m = v.u("x"), z3.Const("hm", U)
        now = State(v, g)
        v.ensure("set is refused for unknown variables only", z3.BoolVal(o.ok) == s.Vr(a))
        well_formed(v, "set", g)
        if o.ok:
            v.ensure("set leaves variables no method determines", z3.Implies(
                z3.And(s.Vr(x), z3.Not(z3.Exists([m], z3.And(s.Mt(m), OUT(m, x))))), now.VAL(x) == z3.If(x == a, val, s.VAL(x))))
        state_is(v, "set", g, s.Vr, s.Mt, s.VAL, None if o.ok else s.CH, value=not o.ok)
    else:
        for kw in ({"prop": False},):
            o = v.meth(g, "set", a, val, **kw)
        v.ensure("set is refused for unknown variables only", z3.BoolVal(o.ok) == s.Vr(a))
        well_formed(v, "deferred set", g)
        state_is(v, "deferred set", g, s.Vr, s.Mt, lambda x: z3.If(z3.And(s.Vr(a), x == a), val, s.VAL(x)),
                 lambda x: z3.Or(s.CH(x), z3.And(s.Vr(a), x == a)))


@spec("C07", MG + "._do_execute", name="execution_frame")
def do_execute(v):
    def execute(it, m):
        def call(inmap):
            # the contract of Method.execute: a mapping, with no effect on the graph
            D, W = v.ctx.func_("outmap.dom", U, B), v.ctx.func_("outmap.val", U, U)
            uu = it.to_u
            return it.ctx.new(DictV(SDict(lambda x: D(uu(x)), lambda x: W(uu(x)), SU, SU)))
        call.spec_callable = True
        return call
    g, s = sym(v, execute)
    m = v.u("method")
    v.assume(s.Mt(m))
    v.cover()
    o = v.meth(g, "_do_execute", m)
    v.ensure("_do_execute raises nothing", o.ok)
    if not o.ok:
        return
    well_formed(v, "_do_execute", g)
    state_is(v, "_do_execute", g, s.Vr, s.Mt, lambda x: z3.If(OUT(m, x), State(v, g).VAL(x), s.VAL(x)))
    X, _, _ = vars3(v)
    now = State(v, g)
    v.ensure("_do_execute forgets no pending change", z3.Implies(s.CH(X), now.CH(X)))
    v.ensure("_do_execute flags only its outputs", z3.Implies(now.CH(X), z3.Or(s.CH(X), OUT(m, X))))


NP, CERT = z3.Function("no_path", U, U, B), z3.Function("reached", U, U, U, B)


def use_path(v, g, E):
    """The contract of path (proved as C05) on a graph with the dependencies E: nothing only when a set of vertices has
    the start, is closed under dependencies and has none to the end; else a list, and a walk exists."""
    a, b, x, y = z3.Consts("pa pb px py", U)
    v.ctx.axiom(z3.ForAll([a, b], z3.Implies(NP(a, b), CERT(a, b, a)), patterns=[NP(a, b)]))
    v.ctx.axiom(z3.ForAll([a, b, x, y], z3.Implies(z3.And(NP(a, b), CERT(a, b, x), E(x, y)), z3.And(CERT(a, b, y), y != b)),
                          patterns=[z3.MultiPattern(CERT(a, b, x), CERT(a, b, y))]))
    X, Y = v.ctx.const("X", U), v.ctx.const("Y", U)

    def path(v, self, start, end):
        if self is not g.slots["_graph"]:
            return MISSING
        V2, E2, _ = v.it.read_view(self, check=False)
        if not v.it.prove(zb(E2(X, Y)) == E(X, Y)):
            raise Unsupported("path search in another graph than the one with the new method")
        a, b = v.it.to_u(start), v.it.to_u(end)
        if not v.ctx.branch(z3.And(zb(V2(a)), zb(V2(b)))):
            return MISSING
        n, nd = z3.Function("path.len", U, U, I), z3.Function("path.nodup", U, U, B)
        at, mem = z3.Function("path.at", U, U, I, U), z3.Function("path.mem", U, U, U, B)
        v.ctx.axiom(z3.If(NP(a, b), n(a, b) == 0, n(a, b) >= 2))
        return v.ctx.new(ListV(SList(n(a, b), lambda i: at(a, b, v.it.int_term(i)), lambda x: mem(a, b, v.it.to_u(x)), nd(a, b), SU)))
    v.use(GRAPH + ".path", path)


@spec("C07", MG + ".add_method", MG + ".add_variable", MG + ".rem_method", name="add_method")
def add_method(v):
    RANKS[:] = [RANK, N]
    g, s = sym(v)
    m = v.u("method")
    v.assume(KIND(m))
    x, y, o, k = z3.Consts("hx hy ho hk", U)
    v.assume(z3.ForAll([x], z3.Implies(z3.Or(INP(m, x), OUT(m, x)), z3.Not(KIND(x)))))
    v.cover()
    known = v.split(s.Mt(m))
    Vr2 = lambda z: z3.Or(s.Vr(z), INP(m, z), OUT(m, z))
    Mt2 = lambda z: z3.Or(s.Mt(z), z == m)
    None_ = v.ctx.uconst(None)
    if not known:
        use_path(v, g, lambda a, b: edge(Mt2, a, b))
        # the vertices behind the new method go above all others, the method in between
        R = lambda z: z3.Exists([o], z3.And(OUT(m, o), CERT(o, o, z)))
        base = lambda z: z3.If(z3.Or(s.Vr(z), s.Mt(z)), RANK(z), 0)
        RANKS[:] = [lambda z: z3.If(R(z), base(z) + N + 1, z3.If(z == m, N, base(z))), 2 * N + 1]
    v.assume(N >= 1)
    use_frames(v, g, "execute", "_do_execute", "propagate")
    r = v.meth(g, "add_method", m) if v.split(v.bool("propagating")) else v.meth(g, "add_method", m, prop=False)
    if known:
        v.ensure("adding a method again is accepted", r.ok)
        RANKS[:] = [RANK, N]
        well_formed(v, "adding a method again", g)
        state_is(v, "adding a method again", g, s.Vr, s.Mt, s.VAL, s.CH)
        return
    if r.ok:
        well_formed(v, "add_method", g, *RANKS)
        state_is(v, "add_method", g, Vr2, Mt2, None, value=False)
        X, _, _ = vars3(v)
        v.ensure("add_method leaves variables no method determines", z3.Implies(
            z3.And(s.Vr(X), z3.Not(z3.Exists([k], z3.And(Mt2(k), OUT(k, X))))), State(v, g).VAL(X) == s.VAL(X)))
        return
    v.ensure("a method is refused with the specific exceptions",
             r.excname in ("MethodGraphDetermineException", "MethodGraphCycleException"))
    if r.excname == "MethodGraphDetermineException":
        v.ensure("refused for double determination only if another method determines an output",
                 z3.Exists([o, k], z3.And(OUT(m, o), s.Mt(k), k != m, OUT(k, o))))
    else:
        v.ensure("refused for a cycle only if an output leads back to itself", z3.Exists([o], z3.And(OUT(m, o), z3.Not(NP(o, o)))))
    RANKS[:] = [RANK, N]
    now = State(v, g)
    rank0 = lambda z: z3.If(z3.Or(s.Vr(z), s.Mt(z)), RANK(z), 0)
    well_formed(v, "a refused add_method", g)
    X, _, _ = vars3(v)
    v.ensure("a refused add_method leaves the methods", now.Mt(X) == s.Mt(X))
    v.ensure("a refused add_method leaves the existing variables", z3.Implies(s.Vr(X), now.Vr(X)))
    v.ensure("a refused add_method leaves the existing values", z3.Implies(s.Vr(X), now.VAL(X) == s.VAL(X)))
    v.ensure("a refused add_method adds no other variables", z3.Implies(z3.And(now.Vr(X), z3.Not(s.Vr(X))), z3.Or(INP(m, X), OUT(m, X))))
    v.ensure("a refused add_method gives new variables no value", z3.Implies(z3.And(now.Vr(X), z3.Not(s.Vr(X))), now.VAL(X) == None_))
    v.ensure("a refused add_method leaves the pending changes", now.CH(X) == s.CH(X))


class Frame(invariants.LoopContract):
    """Loops of propagation: they change only values of determined variables and pending changes."""

    def __init__(self, v, g, s, kind):
        self.v, self.g, self.s, self.kind, self.name = v, g, s, kind, "propagation (%s)" % kind

    def match(self, it, s, env, source=None):
        return {"values": (self.g.slots["_map"], None), "pending": (self.g.slots["_changed"], None)}

    def inv(self, st, done):
        s, uu = self.s, self.v.it.to_u
        k = z3.Const("hk", U)
        return [("the variables stay", [U], lambda x: zb(st["values"].dom(x)) == s.Vr(x)),
                ("only determined variables get values", [U], lambda x: z3.Implies(
                    z3.And(s.Vr(x), z3.Not(z3.Exists([k], z3.And(s.Mt(k), OUT(k, x))))), uu(st["values"].val(x)) == s.VAL(x))),
                ("only variables are pending", [U], lambda x: z3.Implies(zb(st["pending"].dom(x)), s.Vr(x)))]


@spec("C07", MG + ".propagate", name="propagation_frame")
def propagate(v):
    RANKS[:] = [RANK, N]
    g, s = sym(v)
    v.cover()
    use_frames(v, g, "_do_execute")
    invariants.install(v, Frame(v, g, s, "while"), Frame(v, g, s, "for"))
    o = v.meth(g, "propagate")
    v.ensure("propagate raises nothing", o.ok)
    if o.ok:
        after_propagation(v, "propagate", g, s)


def after_propagation(v, name, g, s):
    X, _, _ = vars3(v)
    k = z3.Const("hk", U)
    well_formed(v, name, g)
    state_is(v, name, g, s.Vr, s.Mt, None, value=False)
    v.ensure(name + " leaves variables no method determines", z3.Implies(
        z3.And(s.Vr(X), z3.Not(z3.Exists([k], z3.And(s.Mt(k), OUT(k, X))))), State(v, g).VAL(X) == s.VAL(X)))


@spec("C07", MG + ".execute", name="execute")
def execute(v):
    RANKS[:] = [RANK, N]
    g, s = sym(v)
    m = v.u("method")
    v.assume(KIND(m))
    v.cover()
    use_frames(v, g, "_do_execute", "propagate")
    o = v.meth(g, "execute", m)
    v.ensure("execute is refused for unknown methods only", z3.BoolVal(o.ok) == s.Mt(m))
    if o.ok:
        after_propagation(v, "execute", g, s)
    else:
        well_formed(v, "a refused execute", g)
        state_is(v, "a refused execute", g, s.Vr, s.Mt, s.VAL, s.CH)


class Clear(invariants.LoopContract):
    """The loop of clear: variables go, and with each the methods on it."""
    name = "clearing"

    def __init__(self, v, g, s, kind):
        self.v, self.g, self.s, self.kind = v, g, s, kind

    def match(self, it, s, env, source=None):
        r = {n: (self.g.slots["_" + n], None) for n in ("map", "methods", "changed")}
        o = self.g.slots["_graph"]
        r.update({"f": (o.slots["_forward"], None), "r": (o.slots["_reverse"], None)})
        return r

    def fresh(self, v, role, cell):
        o = self.g.slots["_graph"]
        if role == "f":
            V, E, W = v.ctx.func_("c_V", U, B), v.ctx.func_("c_E", U, U, B), v.ctx.func_("c_W", U, U, U)
            v.it.write_view(o, lambda x: V(x), lambda x, y: E(x, y), lambda x, y: W(x, y))
        return cell.rep if role in "fr" else invariants.fresh_rep(v, role, cell)

    def inv(self, st, done):
        v, s = self.v, self.s
        Vr, Mt = (lambda x: zb(st["map"].dom(x))), (lambda x: zb(st["methods"].dom(x)))
        V, E, W = v.it.edge_funcs(st["f"])
        x = z3.Const("hx", U)
        gone = lambda m: z3.Exists([x], z3.And(z3.Or(INP(m, x), OUT(m, x)), z3.Not(Vr(x))))
        out = [("no variable is added", [U], lambda x: z3.Implies(Vr(x), s.Vr(x))),
               ("a method stays while all its variables do", [U, U], lambda m, x: z3.Implies(
                   z3.And(Mt(m), z3.Or(INP(m, x), OUT(m, x))), Vr(x))),
               ("only methods on removed variables go", [U], lambda m: Mt(m) == z3.And(s.Mt(m), z3.Not(gone(m)))),
               ("the graph has the variables and the methods", [U], lambda x: zb(V(x)) == z3.Or(Vr(x), Mt(x))),
               ("the graph has the dependencies", [U, U], lambda x, y: zb(E(x, y)) == edge(Mt, x, y)),
               ("only variables are pending", [U], lambda x: z3.Implies(zb(st["changed"].dom(x)), Vr(x))),
               ("values stay", [U], lambda x: z3.Implies(Vr(x), v.it.to_u(st["map"].val(x)) == s.VAL(x)))]
        out.append(("the graph is well formed", [U, U], lambda x, y: zb(v.it.mirror_goal(self.g.slots["_graph"], x, y))))
        if self.kind == "for":
            out.append(("the variables left are those not done", [U], lambda x: Vr(x) == z3.And(s.Vr(x), z3.Not(zb(done(x))))))
        return out

    def variant(self, before, after):
        if self.kind == "for":
            return []
        x, X = z3.Const("vx", U), self.v.ctx.const("X", U)
        a, b = [(lambda z, st=st: zb(st["map"].dom(z))) for st in (before, after)]
        return [("variables only go", z3.Implies(b(X), a(X))), ("a variable goes in each round", z3.Exists([x], z3.And(a(x), z3.Not(b(x)))))]


@spec("C07", MG + ".clear", MG + ".rem_variable", name="clear")
def clear(v):
    RANKS[:] = [RANK, N]
    g, s = sym(v)
    v.cover()
    uu = v.it.to_u

    def rem_variable(v, self, varname):
        # proved above, for any well-formed method graph
        if self is not g:
            return MISSING
        a = uu(varname)
        n = State(v, g)
        if not v.ctx.branch(n.Vr(a)):
            return MISSING
        X, Y, Z = vars3(v)
        for k, f in n.inv(X, Y, Z):
            v.ensure("before rem_variable: " + k, f)
        v.ensure("before rem_variable: no cycle", z3.Implies(zb(n.graph[1](X, Y)), z3.And(RANK(X) < RANK(Y), RANK(X) >= 0, RANK(Y) < N)))
        Vr2, Mt2 = (lambda x: z3.And(n.Vr(x), x != a)), (lambda x: z3.And(n.Mt(x), z3.Not(INP(x, a)), z3.Not(OUT(x, a))))
        put_state(v, g, Vr2, Mt2, n.VAL, lambda x: z3.And(n.CH(x), x != a))
        return None
    v.use(MG + ".rem_variable", rem_variable)
    invariants.install(v, Clear(v, g, s, "while"), Clear(v, g, s, "for"))
    o = v.meth(g, "clear")
    v.ensure("clear raises nothing", o.ok)
    if not o.ok:
        return
    X, _, _ = vars3(v)
    well_formed(v, "clear", g)
    now = State(v, g)
    v.ensure("clear removes every variable", z3.Not(now.Vr(X)))
    o = v.meth(g, "variables")
    v.ensure("variables() reports none after clear", o.ok and z3.Not(v.true(v.it.contains(o.value, X))))
    x = z3.Const("hx", U)
    v.ensure("clear removes every method on variables", now.Mt(X) == z3.And(s.Mt(X), z3.Not(z3.Exists([x], z3.Or(INP(X, x), OUT(X, x))))))
