"""C10: a multi-method covers every combination of its multi-valued inputs."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from pyvc import invariants
from contracts.graphlib import *

M = "solver.method:"
MM = M + "MultiMethod"
S = z3.DeclareSort("Combo")             # a combination: one value for each input
PICK = z3.Function("pick", S, U, U)
GIVES = z3.Function("gives", S, U, B)   # the values multi_execute computes from a combination
MV = z3.Function("is_multivariable", U, B)
VALS = z3.Function("value_of", U, U, B)  # the values a multi-valued input's collection has


def setup(v):
    v.ctx.opaque_isa = dict(v.ctx.opaque_isa, MultiVariable=lambda it, x: MV(x))

    def container(it, u):
        key = ("container", u.sexpr())
        r = v.ctx.sqrt_cache.get(key)
        if r is None:
            r = ListV(it.fresh_list_of(lambda x: VALS(u, it.to_u(x)), SU, it.ctx.const("vals_nd", B), "vals"))
            r.frozen = True
            v.ctx.putattr(v.ctx, "sqrt_cache", dict(v.ctx.sqrt_cache, **{key: r}) if False else {**v.ctx.sqrt_cache, key: r})
        return r
    v.ctx.opaque_iter = container


def method_object(v):
    """A multi-method of any class: multi_execute is only known through its contract."""
    return v.ctx.new(Obj(v.it.get_class(M + "SumProdMethod")))


def combos(v, T, inval, INP, frame):
    """The combinations over the inputs T with the others fixed by `frame`, as a predicate by its two directions."""
    x = z3.Const("hx", U)
    return lambda s: z3.And(z3.ForAll([x], z3.Implies(T(x), inval(x, PICK(s, x)))),
                            z3.ForAll([x], z3.Implies(z3.And(INP(x), z3.Not(T(x))), PICK(s, x) == frame(x))))


def result_facts(v, mem, ok):
    s, y = z3.Const("hs", S), z3.Const("hy", U)
    v.ctx.axiom(z3.ForAll([y], z3.Implies(mem(y), z3.Exists([s], z3.And(ok(s), GIVES(s, y))))))
    v.ctx.axiom(z3.ForAll([s, y], z3.Implies(z3.And(GIVES(s, y), ok(s)), mem(y)), patterns=[GIVES(s, y)]))


def result_goals(v, name, mem, ok):
    s, y, Y = z3.Const("hs", S), v.ctx.const("y", U), v.ctx.const("s", S)
    v.ensure(name + " gives nothing extra", z3.Implies(mem(y), z3.Exists([s], z3.And(ok(s), GIVES(s, y)))))
    v.ensure(name + " misses nothing", z3.Implies(z3.And(ok(Y), GIVES(Y, y)), mem(y)))


def value_mem(v, r):
    if not isinstance(r, (ListV, SetV)):
        raise Unsupported("a result that is no list or set")
    return lambda y: zb(v.it.contains(r, y))


@spec("C10", MM + ".__init__", M + "Method.__init__", name="construction")
def construction(v):
    setup(v)
    o = method_object(v)
    ins, imem = sym_list(v, "inputs")
    outs, omem = sym_list(v, "outputs")
    v.cover()
    X, Y = vars2(v)
    n = outs.rep.len
    first = v.it.to_u(outs.rep.at(0))
    r = v.call(MM + ".__init__", o, "m", ins, outs)
    good = z3.And(n == 1, MV(first))
    v.ensure("construction is refused unless there is exactly one output and it is multi-valued", z3.Implies(z3.BoolVal(r.ok), good))
    v.ensure("construction is accepted with exactly one multi-valued output", z3.Implies(good, z3.BoolVal(r.ok)))
    if not r.ok:
        return
    for a, mem in (("inputs", imem), ("outputs", omem)):
        l = v.attr(o, a)
        v.ensure("%s are kept" % a, isinstance(l, ListV) and v.true(v.it.contains(l, X)) == mem(X))
    v.ensure("the output is the one given", v.it.to_u(v.it.get_item(v.attr(o, "outputs"), 0)) == first)


@spec("C10", MM + ".execute", MM + ".__init__", name="execute")
def execute(v):
    setup(v)
    o = method_object(v)
    ins, imem = sym_list(v, "inputs")
    out = v.u("out")
    v.assume(MV(out))
    D, W = z3.Function("inmap.dom", U, B), z3.Function("inmap.val", U, U)
    uu = v.it.to_u
    d = v.ctx.new(DictV(SDict(lambda x: D(uu(x)), lambda x: W(uu(x)), SU, SU)))
    x = z3.Const("hx", U)
    v.assume(z3.ForAll([x], z3.Implies(imem(x), D(x))))
    v.cover()
    r = v.call(MM + ".__init__", o, "m", ins, v.list([out]))
    v.ensure("construction succeeds", r.ok)
    if not r.ok:
        return
    T = lambda z: z3.And(imem(z), MV(z))
    inval = lambda m, z: VALS(W(m), z)
    X, Y = vars2(v)
    seen = []

    def recurse(v, self, inmap, base, rest):
        # how the two functions share the work is theirs: a counter-model of this contract alone refutes nothing
        v.ctx.abstract("the contract between execute and the enumeration")
        v.ensure("the enumeration is started on this method", self is o)
        v.ensure("the enumeration is started with the input values", inmap is d)
        if not isinstance(base, DictV) or not isinstance(rest, ListV):
            raise Unsupported("arguments of the enumeration")
        v.ensure("the enumeration is over the multi-valued inputs", v.true(v.it.contains(rest, X)) == T(X))
        b = base.rep
        v.ensure("the enumeration is started with exactly the single-valued inputs", zb(b.dom(X)) == z3.And(imem(X), z3.Not(T(X))))
        v.ensure("single-valued inputs have their value", z3.Implies(zb(b.dom(X)), uu(b.val(X)) == W(X)))
        f = v.ctx.func_("enumerated", U, B)
        ok = combos(v, T, inval, imem, lambda z: W(z))
        result_facts(v, lambda y: f(y), ok)
        v.ctx.setrep(base, havoc_map(v, b, T, imem))
        seen.append(1)
        return v.ctx.new(SetV(SSet(lambda z: f(uu(z)), SU, None)))
    v.use(MM + "._recurse_execute", recurse)
    r = v.meth(o, "execute", d)
    v.ensure("execute raises nothing", r.ok)
    if not r.ok:
        return
    v.ensure("execute gives a mapping", isinstance(r.value, DictV))
    rep = r.value.rep
    v.ensure("execute gives exactly the output", zb(rep.dom(X)) == (X == out))
    mem = value_mem(v, rep.val(out))
    result_goals(v, "execute", mem, combos(v, T, inval, imem, lambda z: W(z)))
    v.ensure("execute leaves the input values as they were", And(zb(d.rep.dom(X)) == D(X), Implies(D(X), uu(d.rep.val(X)) == W(X))))


def havoc_map(v, b, T, INP):
    """The map of chosen values after an enumeration over T: anything for T, the rest as before."""
    f, g = v.ctx.func_("map_dom", U, B), v.ctx.func_("map_val", U, U)
    uu = v.it.to_u
    return SDict(lambda x: z3.If(T(uu(x)), z3.And(INP(uu(x)), f(uu(x))), zb(b.dom(x))),
                 lambda x: z3.If(T(uu(x)), g(uu(x)), uu(b.val(x))) if b.keys != () else g(uu(x)), SU, SU)


class Values(invariants.LoopContract):
    """Roles: `out`, the values found; `chosen`, the map of chosen values."""
    name, kind = "values of an input", "for"

    def __init__(self, v, base, T, INP, inval, frame, m0):
        self.v, self.base, self.T, self.INP, self.inval, self.m0, self.frame = v, base, T, INP, inval, m0, frame
        self.ok = combos(v, T, inval, INP, lambda x: frame[1](x))

    def match(self, it, s, env, source=None):
        if source.sorts != [U]:
            return None
        cs = invariants.env_cells(env, (SetV, DictV, ListV))
        out = [(n, c) for n, c in cs if isinstance(c, SetV) and not c.frozen and c.rep.elems == ()]
        if len(out) != 1:
            return None
        names = [n for n, c in cs if c is self.base]
        return {"out": (out[0][1], out[0][0]), "chosen": (self.base, names[0] if names else None)}

    def inv(self, st, done):
        v, uu = self.v, self.v.it.to_u
        s = z3.Const("hs", S)
        x = z3.Const("hx", U)
        dom, val = (lambda z: zb(st["chosen"].dom(z))), (lambda z: uu(st["chosen"].val(z)))
        mem = lambda y: zb(st["out"].mem(y))
        D0, W0 = self.frame
        known = st["chosen"].keys == ()
        return [("values found come from a combination", [U], lambda y: z3.Implies(mem(y), z3.Exists([s], z3.And(self.ok(s), GIVES(s, y))))),
                ("combinations with a value done are found", [S, U], lambda t, y: z3.Implies(
                    z3.And(GIVES(t, y), self.ok(t), zb(done(PICK(t, self.m0)))), mem(y))),
                ("the other inputs keep their value", [U], lambda z: z3.Implies(
                    z3.Not(self.T(z)), z3.And(dom(z) == D0(z), z3.Implies(D0(z), z3.BoolVal(True) if known else val(z) == W0(z))))),
                ("only inputs are chosen", [U], lambda z: z3.Implies(dom(z), self.INP(z)))]


@spec("C10", MM + "._recurse_execute", name="enumeration", note="by induction on the length of the list of inputs: the recursive call is "
      "checked against, and replaced by, the contract proved here; the list gets shorter")
def enumeration(v):
    setup(v)
    o = method_object(v)
    INP = lambda x: inp(x)
    inp = z3.Function("inputs.mem", U, B)
    rest, tm = sym_list(v, "rest")
    T = lambda x: tm(x)
    D, W = z3.Function("inmap.dom", U, B), z3.Function("inmap.val", U, U)
    D0, W0 = z3.Function("chosen.dom", U, B), z3.Function("chosen.val", U, U)
    uu = v.it.to_u
    x = z3.Const("hx", U)
    X, Y = vars2(v)
    inmap = v.ctx.new(DictV(SDict(lambda z: D(uu(z)), lambda z: W(uu(z)), SU, SU)))
    base = v.ctx.new(DictV(SDict(lambda z: D0(uu(z)), lambda z: W0(uu(z)), SU, SU)))
    v.assume(z3.ForAll([x], z3.Implies(T(x), z3.And(INP(x), D(x)))))
    # the map has all inputs but (some of) those still to be chosen
    v.assume(z3.ForAll([x], z3.Implies(D0(x), INP(x))))
    v.assume(z3.ForAll([x], z3.Implies(z3.And(INP(x), z3.Not(T(x))), D0(x))))
    v.cover()
    inval = lambda m, z: VALS(W(m), z)
    n = rest.rep.len
    m0 = uu(rest.rep.at(0))
    L = Values(v, base, T, INP, inval, (D0, W0), m0)

    def multi_execute(v_map):
        """The contract of multi_execute: its values depend only on the values given for the inputs."""
        if not isinstance(v_map, DictV):
            raise Unsupported("argument of multi_execute")
        b = v_map.rep
        v.ensure("multi_execute is called with exactly the inputs", zb(b.dom(X)) == INP(X))
        f = v.ctx.func_("computed", U, B)
        s, y = z3.Const("hs", S), z3.Const("hy", U)
        c = v.ctx.const("combo", S)
        v.ctx.axiom(z3.ForAll([x], PICK(c, x) == uu(b.val(x))))
        same = lambda s: z3.ForAll([x], z3.Implies(INP(x), PICK(s, x) == uu(b.val(x))))
        v.ctx.axiom(z3.ForAll([s, y], z3.Implies(same(s), f(y) == GIVES(s, y)), patterns=[GIVES(s, y)]))
        v.ctx.axiom(z3.ForAll([y], f(y) == GIVES(c, y), patterns=[f(y)]))
        return v.ctx.new(ListV(v.it.fresh_list_of(lambda z: f(uu(z)), SU, v.ctx.const("nd", B), "computed")))
    multi_execute.spec_callable = True
    o.slots["multi_execute"] = multi_execute
    started = []

    def recurse(v, self, inmap2, base2, rest2):
        if not started:
            started.append(1)
            return MISSING
        v.ensure("the recursive call is on this method and its input values", self is o and inmap2 is inmap and base2 is not inmap)
        if not isinstance(rest2, ListV) or not isinstance(base2, DictV):
            raise Unsupported("arguments of the enumeration")
        r2 = v.it.slist_rep(rest2.rep)
        T2 = lambda z: zb(r2.mem(z))
        b = base2.rep
        v.ensure("the recursive call has a shorter list", v.it.int_term(r2.len) < n)
        v.ensure("recursive call: inputs to choose are inputs with values", z3.Implies(T2(X), z3.And(INP(X), D(X))))
        v.ensure("recursive call: only inputs are chosen", z3.Implies(zb(b.dom(X)), INP(X)))
        v.ensure("recursive call: all other inputs are chosen", z3.Implies(z3.And(INP(X), z3.Not(T2(X))), zb(b.dom(X))))
        f = v.ctx.func_("found", U, B)
        result_facts(v, lambda y: f(y), combos(v, T2, inval, INP, lambda z: uu(b.val(z))))
        v.ctx.setrep(base2, havoc_map(v, b, T2, INP))
        return v.ctx.new(ListV(v.it.fresh_list_of(lambda z: f(uu(z)), SU, v.ctx.const("nd", B), "found")))
    v.use(MM + "._recurse_execute", recurse)
    invariants.install(v, L)
    r = v.meth(o, "_recurse_execute", inmap, base, rest)
    v.ensure("the enumeration raises nothing", r.ok)
    if not r.ok:
        return
    mem = value_mem(v, r.value)
    result_goals(v, "the enumeration", mem, combos(v, T, inval, INP, lambda z: W0(z)))
    b = base.rep
    v.ensure("the enumeration keeps the other inputs' values", z3.Implies(z3.Not(T(X)), z3.And(zb(b.dom(X)) == D0(X), z3.Implies(D0(X), uu(b.val(X)) == W0(X)))))
    v.ensure("the enumeration chooses only inputs", z3.Implies(zb(b.dom(X)), INP(X)))
    v.ensure("the enumeration leaves the input values as they were", And(zb(inmap.rep.dom(X)) == D(X), Implies(D(X), uu(inmap.rep.val(X)) == W(X))))


@spec("C10", M + "SumProdMethod.multi_execute", M + "SumProdMethod.__init__", name="sum_and_product")
def sumprod(v):
    setup(v)
    a, b, c = [v.u(n) for n in "abc"]
    v.assume(MV(c))
    v.assume(a != b)
    x, y = v.real("x"), v.real("y")
    v.cover()
    o = v.new(M + "SumProdMethod", a, b, c)
    d = v.dict([(a, x), (b, y)])
    r = v.meth(o, "multi_execute", d)
    v.ensure("multi_execute raises nothing", r.ok)
    if not r.ok:
        return
    z = v.real("z")
    m = v.true(v.it.contains(r.value, z))
    v.ensure("multi_execute gives the sum and the product", m == z3.Or(z == x + y, z == x * y))
    dx = v.meth(o, "multi_execute", v.dict([(a, x), (b, y), (c, x)]))
    v.ensure("multi_execute does not depend on the output's value", dx.ok)
