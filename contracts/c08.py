"""C08: propagation leaves every method's outputs consistent with its inputs."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from pyvc import invariants
from contracts.graphlib import *
from contracts.methodlib import *
from contracts import c07

S = z3.DeclareSort("Valuation")
PICK = z3.Function("value_in", S, U, U)
# what a method computes from a valuation: whether it gives a value for an output, and the value
GIVEN, GIVES = z3.Function("given", U, S, U, B), z3.Function("gives_value", U, S, U, U)
RES = z3.Function("result", U, S, U, U)
DIFF = z3.Function("differs_at", U, S, S, U)
NONEIN = z3.Function("none_input", U, S, U)


def results(v):
    """RES is None when an input is None or no value is given; it depends on the values of the inputs alone."""
    none = v.ctx.uconst(None)
    m, o, x = z3.Consts("rm ro rx", U)
    s, t = z3.Consts("rs rt", S)
    some = z3.And(INP(m, NONEIN(m, s)), PICK(s, NONEIN(m, s)) == none)
    v.ctx.axiom(z3.ForAll([m, s, x], z3.Implies(z3.And(INP(m, x), PICK(s, x) == none), some), patterns=[z3.MultiPattern(INP(m, x), PICK(s, x))]))
    v.ctx.axiom(z3.ForAll([m, s, o], RES(m, s, o) == z3.If(z3.Or(some, z3.Not(GIVEN(m, s, o))), none, GIVES(m, s, o)), patterns=[RES(m, s, o)]))
    d = DIFF(m, s, t)
    v.ctx.axiom(z3.ForAll([m, s, t, o], z3.Or(RES(m, s, o) == RES(m, t, o), z3.And(INP(m, d), PICK(s, d) != PICK(t, d))),
                          patterns=[z3.MultiPattern(RES(m, s, o), RES(m, t, o))]))


def valuation(v, VAL, cache={}):
    """The valuation of a state."""
    s = v.ctx.const("vals", S)
    x = z3.Const("vx", U)
    v.ctx.axiom(z3.ForAll([x], PICK(s, x) == VAL(x), patterns=[PICK(s, x)]))
    return s


def consistent(Mt, VAL, s, CH, m, o, but=None):
    """The output o of m has the value m computes, or an input of m (but not this one) has a pending change."""
    x = z3.Const("jx", U)
    p = z3.Exists([x], z3.And(INP(m, x), CH(x), x != but if but is not None else True))
    return z3.Implies(z3.And(Mt(m), OUT(m, o)), z3.Or(VAL(o) == RES(m, s, o), p))


def sym8(v, execute=None, pending=True):
    g, s = sym(v, execute)
    results(v)
    s.vals = valuation(v, s.VAL)
    m, o = z3.Consts("hm ho", U)
    v.assume(z3.ForAll([m, o], consistent(s.Mt, s.VAL, s.vals, s.CH, m, o), patterns=[OUT(m, o)]))
    return g, s


def still(v, name, g):
    """No change is lost: what is not up to date has a pending input."""
    n = State(v, g)
    if n.known_empty:
        return
    X, Y, _ = vars3(v)
    v.ensure(name + ": outputs are what their method computes unless an input is pending",
             consistent(n.Mt, n.VAL, valuation(v, n.VAL), n.CH, X, Y))


def settled(v, name, g):
    n = State(v, g)
    X, Y, _ = vars3(v)
    v.ensure(name + ": no change is pending", z3.Not(n.CH(X)))
    v.ensure(name + ": every output is what its method computes from its inputs",
             z3.Implies(z3.And(n.Mt(X), OUT(X, Y)), n.VAL(Y) == RES(X, valuation(v, n.VAL), Y)))


def free_kept(v, name, g, s, want=None):
    X, _, _ = vars3(v)
    k = z3.Const("hk", U)
    n = State(v, g)
    v.ensure(name + ": variables no method determines keep their value", z3.Implies(
        z3.And(s.Vr(X), z3.Not(z3.Exists([k], z3.And(n.Mt(k), OUT(k, X))))), z3.And(n.Vr(X), n.VAL(X) == (want or s.VAL)(X))))


@spec("C08", MG + "._do_execute", name="execution")
def do_execute(v):
    box = []

    def execute(it, m):
        def call(inmap):
            s = box[0]
            if not isinstance(inmap, DictV):
                raise Unsupported("argument of execute")
            r, uu = inmap.rep, it.to_u
            X, _, _ = vars3(v)
            none = v.ctx.uconst(None)
            v.ensure("execute is given all inputs", z3.Implies(INP(m, X), zb(r.dom(X))))
            if not (r.keys == ()):
                v.ensure("execute is given the current values", z3.Implies(INP(m, X), uu(r.val(X)) == s.VAL(X)))
            v.ensure("execute is called only when no input is None", z3.Implies(INP(m, X), s.VAL(X) != none))
            return it.ctx.new(DictV(SDict(lambda x: GIVEN(m, s.vals, uu(x)), lambda x: GIVES(m, s.vals, uu(x)), SU, SU)))
        call.spec_callable = True
        return call
    g, s = sym(v, execute)
    results(v)
    s.vals = valuation(v, s.VAL)
    box.append(s)
    m = v.u("method")
    v.assume(s.Mt(m))
    v.cover()
    o = v.meth(g, "_do_execute", m)
    v.ensure("_do_execute raises nothing", o.ok)
    if not o.ok:
        return
    X, _, _ = vars3(v)
    n = State(v, g)
    v.ensure("_do_execute: the variables stay", n.Vr(X) == s.Vr(X))
    v.ensure("_do_execute: the methods stay", n.Mt(X) == s.Mt(X))
    v.ensure("_do_execute gives every output the value the method computes, or None", z3.Implies(OUT(m, X), n.VAL(X) == RES(m, s.vals, X)))
    v.ensure("_do_execute leaves all other values", z3.Implies(z3.And(s.Vr(X), z3.Not(OUT(m, X))), n.VAL(X) == s.VAL(X)))
    v.ensure("_do_execute flags every changed value", z3.Implies(z3.And(s.Vr(X), n.VAL(X) != s.VAL(X)), n.CH(X)))
    v.ensure("_do_execute forgets no pending change", z3.Implies(s.CH(X), n.CH(X)))
    v.ensure("_do_execute flags only its outputs", z3.Implies(n.CH(X), z3.Or(s.CH(X), OUT(m, X))))


def use_execution(v, g):
    """The contract proved above."""
    def ex(v, self, method):
        if self is not g:
            return MISSING
        m = v.it.to_u(method)
        n = State(v, g)
        if not v.ctx.branch(n.Mt(m)):
            return MISSING
        uu = v.it.to_u
        s = valuation(v, n.VAL)
        c = v.ctx.func_("exec_changed", U, B)
        x = z3.Const("ex", U)
        VAL2 = lambda z: z3.If(OUT(m, z), RES(m, s, z), n.VAL(z))
        v.ctx.axiom(z3.ForAll([x], z3.Implies(n.CH(x), c(x)), patterns=[c(x)]))
        v.ctx.axiom(z3.ForAll([x], z3.Implies(z3.And(n.Vr(x), VAL2(x) != n.VAL(x)), c(x)), patterns=[c(x)]))
        v.ctx.axiom(z3.ForAll([x], z3.Implies(c(x), z3.Or(n.CH(x), OUT(m, x))), patterns=[c(x)]))
        v.ctx.put(g.slots["_map"], "rep", SDict(lambda z: n.Vr(uu(z)), lambda z: VAL2(uu(z)), SU, SU))
        v.ctx.put(g.slots["_changed"], "rep", SDict(lambda z: c(uu(z)), lambda z: v.ctx.uconst(1), SU, SU))
        return None
    v.use(MG + "._do_execute", ex)


class Propagation(invariants.LoopContract):
    def __init__(self, v, g, s):
        self.v, self.g, self.s = v, g, s
        self.memo = {}

    def val(self, st):
        r = st["values"]
        VAL = lambda x: self.v.it.to_u(r.val(x))
        key = id(r)
        if key not in self.memo:
            self.memo[key] = (valuation(self.v, VAL), r)
        return VAL, self.memo[key][0]

    def frame(self, st):
        s = self.s
        k = z3.Const("hk", U)
        VAL, _ = self.val(st)
        return [("the variables stay", [U], lambda x: zb(st["values"].dom(x)) == s.Vr(x)),
                ("variables no method determines keep their value", [U], lambda x: z3.Implies(
                    z3.And(s.Vr(x), z3.Not(z3.Exists([k], z3.And(s.Mt(k), OUT(k, x))))), VAL(x) == s.VAL(x))),
                ("only variables are pending", [U], lambda x: z3.Implies(zb(st["pending"].dom(x)), s.Vr(x)))]


class Rounds(Propagation):
    name, kind = "propagation", "while"

    def match(self, it, s, env, source=None):
        return {"values": (self.g.slots["_map"], None), "pending": (self.g.slots["_changed"], None)}

    def inv(self, st, done):
        CH = lambda x: zb(st["pending"].dom(x))
        VAL, s = self.val(st)
        return self.frame(st) + [("outputs are what their method computes unless an input is pending", [U, U],
                                  lambda m, o: consistent(self.s.Mt, VAL, s, CH, m, o))]

    def variant(self, before, after):
        a, b = [(lambda z, st=st: zb(st["pending"].dom(z))) for st in (before, after)]
        x, y = z3.Consts("vx vy", U)
        return [("a round settles a variable and makes pending only later ones", z3.Exists([x], z3.And(
            a(x), z3.Not(b(x)), z3.ForAll([y], z3.Implies(z3.And(b(y), z3.Not(a(y))), RANK(y) > RANK(x))))))]


class Consumers(Propagation):
    name, kind = "consumers of a change", "for"

    def match(self, it, s, env, source=None):
        v = self.v
        if source.sorts != [U]:
            return None
        M = v.ctx.const("M", U)
        cands = []
        for n in sorted(env.slots):
            x = env.slots[n]
            if is_u(x) and not any(x.eq(c) for c in cands) and v.it.prove(
                    zb(source.mem(M)) == z3.And(self.s.Mt(M), INP(M, x))):
                cands.append(x)
        if len(cands) != 1:
            return None
        self.pick = cands[0]
        self.entry = self.g.slots["_changed"].rep
        return {"values": (self.g.slots["_map"], None), "pending": (self.g.slots["_changed"], None)}

    def inv(self, st, done):
        CH = lambda x: zb(st["pending"].dom(x))
        CH0 = lambda x: zb(self.entry.dom(x))
        VAL, s = self.val(st)
        p = self.pick
        return self.frame(st) + [
            ("outputs are what their method computes unless another input is pending or their method is to do", [U, U],
             lambda m, o: z3.Or(consistent(self.s.Mt, VAL, s, CH, m, o, p), z3.And(INP(m, p), z3.Not(zb(done(m)))))),
            ("no pending change is lost", [U], lambda x: z3.Implies(CH0(x), CH(x))),
            ("only later variables become pending", [U], lambda x: z3.Implies(z3.And(CH(x), z3.Not(CH0(x))), RANK(x) > RANK(p)))]


@spec("C08", MG + ".propagate", name="propagation")
def propagate(v):
    g, s = sym8(v)
    v.cover()
    use_execution(v, g)
    invariants.install(v, Rounds(v, g, s), Consumers(v, g, s))
    o = v.meth(g, "propagate")
    v.ensure("propagate raises nothing", o.ok)
    if o.ok:
        n = State(v, g)
        X, _, _ = vars3(v)
        v.ensure("propagate: the variables stay", n.Vr(X) == s.Vr(X))
        v.ensure("propagate: the methods stay", n.Mt(X) == s.Mt(X))
        settled(v, "propagate", g)
        free_kept(v, "propagate", g, s)


def use_propagation(v, g, RANK_=None):
    """The contract proved above."""
    def prop(v, self):
        if self is not g:
            return MISSING
        still(v, "before propagation", g)
        n = State(v, g)
        uu = v.it.to_u
        f = v.ctx.func_("settled_val", U, U)
        x, k, o = z3.Consts("px pk po", U)
        s = valuation(v, lambda z: f(z))
        v.ctx.axiom(z3.ForAll([x], z3.Implies(z3.And(n.Vr(x), z3.Not(z3.Exists([k], z3.And(n.Mt(k), OUT(k, x))))), f(x) == n.VAL(x)), patterns=[f(x)]))
        v.ctx.axiom(z3.ForAll([k, o], z3.Implies(z3.And(n.Mt(k), OUT(k, o)), f(o) == RES(k, s, o)), patterns=[OUT(k, o)]))
        v.ctx.put(g.slots["_map"], "rep", SDict(lambda z: n.Vr(uu(z)), lambda z: f(uu(z)), SU, SU))
        v.ctx.put(g.slots["_changed"], "rep", v.it.empty_dict())
        return None
    v.use(MG + ".propagate", prop)


@spec("C08", MG + ".set", name="set")
def set_(v):
    g, s = sym8(v)
    use_execution(v, g)
    use_propagation(v, g)
    a, val = v.u("name"), v.u("value")
    k = z3.Const("hk", U)
    v.assume(s.Vr(a))
    v.assume(z3.Not(z3.Exists([k], z3.And(s.Mt(k), OUT(k, a)))))        # a free variable
    v.cover()
    want = lambda x: z3.If(x == a, val, s.VAL(x))
    if v.split(v.bool("propagating")):
        o = v.meth(g, "set", a, val)
        v.ensure("set raises nothing", o.ok)
        if o.ok:
            settled(v, "set", g)
            free_kept(v, "set", g, s, want)
    else:
        o = v.meth(g, "set", a, val, prop=False)
        v.ensure("set raises nothing", o.ok)
        if o.ok:
            still(v, "deferred set", g)
            free_kept(v, "deferred set", g, s, want)


@spec("C08", MG + ".execute", name="execute")
def execute(v):
    g, s = sym8(v)
    use_execution(v, g)
    use_propagation(v, g)
    m = v.u("method")
    v.assume(s.Mt(m))
    v.cover()
    o = v.meth(g, "execute", m)
    v.ensure("execute raises nothing", o.ok)
    if o.ok:
        settled(v, "execute", g)
        free_kept(v, "execute", g, s)


@spec("C08", MG + ".add_method", name="add_method")
def add_method(v):
    g, s = sym8(v)
    m = v.u("method")
    v.assume(KIND(m))
    x, y, z = z3.Consts("hx hy hz", U)
    v.assume(z3.ForAll([x], z3.Implies(z3.Or(INP(m, x), OUT(m, x)), z3.Not(KIND(x)))))
    v.cover()
    none = v.ctx.uconst(None)
    known = v.split(s.Mt(m))
    Mt2 = lambda z: z3.Or(s.Mt(z), z == m)
    want = lambda z: z3.If(s.Vr(z), s.VAL(z), none)
    ex = []

    def accepted(v, self, method):
        # the graph is well formed here: C07 (before _do_execute, before execute)
        if self is not g:
            return MISSING
        if not ex:
            ex.append(1)
            n = State(v, g)
            v.assume(z3.ForAll([x, y, z], z3.Implies(z3.And(n.Mt(x), n.Mt(y), OUT(x, z), OUT(y, z)), x == y)))
            r = z3.Function("rank2", U, I)
            v.assume(z3.ForAll([x, y], z3.Implies(z3.And(n.Mt(x), INP(x, y)), r(y) < r(x)), patterns=[INP(x, y)]))
            v.assume(z3.ForAll([x, y], z3.Implies(z3.And(n.Mt(x), OUT(x, y)), r(x) < r(y)), patterns=[OUT(x, y)]))
        return inner(v, self, method)
    c07.use_path(v, g, lambda a, b: edge(Mt2, a, b))
    use_execution(v, g)
    inner = v.it.contracts[MG + "._do_execute"].fn
    v.use(MG + "._do_execute", accepted)
    use_propagation(v, g)
    propagating = v.split(v.bool("propagating"))
    o = v.meth(g, "add_method", m) if propagating else v.meth(g, "add_method", m, prop=False)
    if not o.ok:
        still(v, "a refused add_method", g)
        free_kept(v, "a refused add_method", g, s, want)
    elif known or not propagating:
        still(v, "add_method", g)
        free_kept(v, "add_method", g, s, want)
    else:
        settled(v, "add_method", g)
        free_kept(v, "add_method", g, s, want)


def keeps(name, kind, *more):
    @spec("C08", MG + "." + name, *more, name=name)
    def f(v):
        g, s = sym8(v)
        use_execution(v, g)
        use_propagation(v, g)
        a = v.u("argument")
        v.assume(KIND(a) if kind else z3.Not(KIND(a)))
        v.cover()
        o = v.meth(g, name, a, *([v.u("value")] if name == "add_variable" else []))
        n = State(v, g)
        X, _, _ = vars3(v)
        still(v, name, g)
        v.ensure(name + " leaves the values of the variables that stay", z3.Implies(z3.And(s.Vr(X), n.Vr(X)), n.VAL(X) == s.VAL(X)))


keeps("add_variable", False)
keeps("rem_variable", False)
keeps("rem_method", True)


@spec("C08", MG + ".__init__", name="new")
def new(v):
    use_methods(v)
    results(v)
    g = v.new(MG)
    X, _, _ = vars3(v)
    n = State(v, g)
    v.ensure("a new method graph has no method", z3.Not(n.Mt(X)))
    v.ensure("a new method graph has no pending change", z3.Not(n.CH(X)))
