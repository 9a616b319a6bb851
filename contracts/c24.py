"""C24: selection constraints accept exactly the documented points."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.c09 import sym_map, same_map, names_are
from contracts.c17 import classes, cross, three
from contracts.graphlib import vars2

K = "solver.geometric.constraint:"


def arity(n):
    @spec("C24", K + "FunctionConstraint.__init__", K + "FunctionConstraint.satisfied", K + "Constraint.variables",
          name="function_of_%d" % n)
    def s(v):
        """Any function, given as an uninterpreted one; its value is True, some other truth value, or anything else."""
        ns = [v.u("v%d" % i) for i in range(n)]
        d, D, W = sym_map(v, "mapping")
        for x in ns:
            v.assume(D(x))
        v.cover()
        calls = []
        F = z3.Function("F", *([U] * n + [U])) if n else None
        result = lambda args: F(*args) if n else z3.Const("F0", U)

        def f(*args, **kw):
            calls.append([v.it.to_u(a) for a in args])
            return result([v.it.to_u(a) for a in args])
        f.spec_callable = True
        l = v.list(ns)
        o = v.new(K + "FunctionConstraint", f, l)
        r = v.meth(o, "satisfied", d)
        v.ensure("a function constraint is decided", r.ok)
        if not r.ok:
            return
        want = [W(x) for x in ns]
        v.ensure("the function is asked once", len(calls) == 1 and len(calls[0]) == n)
        v.ensure("the function gets the values of the variables in order",
                 And(*[a == b for a, b in zip(calls[0], want)]) if calls and len(calls[0]) == n else False)
        v.ensure("satisfied is a truth value", v.isbool(r.value))
        v.ensure("satisfied exactly when the function returns True", v.true(r.value) == z3.And(result(want) == v.ctx.uconst(True), z3.Function("u_isbool", U, B)(result(want))))
        X, _ = vars2(v)
        v.ensure("the mapping is not changed", same_map(v, d, D, W, X))
        got = v.meth(o, "variables")
        v.ensure("the variables are reported", got.ok and isinstance(got.value, ListV))
        if got.ok:
            names_are(v, "the reported variables are the given ones in order", got.value, ns)
            v.ensure("the reported list is not the constraint's own", got.value is not l and
                     got.value not in [x for x in o.slots.values()])


for _n in (0, 1, 2, 3, 4):
    arity(_n)


@spec("C24", K + "FunctionConstraint.satisfied")
def function_of_booleans(v):
    """A function returning True, False, or a value that is merely truthy."""
    x = v.u("x")
    for val, want in ((True, True), (False, False), (None, False), (1, False), ("yes", False), (v.bool("t"), None)):
        f = lambda a, val=val: val
        f.spec_callable = True
        o = v.new(K + "FunctionConstraint", f, v.list([x]))
        r = v.meth(o, "satisfied", v.dict([(x, v.u("p"))]))
        v.ensure("a function constraint is decided", r.ok)
        if r.ok:
            v.ensure("only True satisfies", v.true(r.value) == (zb(want) if want is not None else val))


def orient(name, cls, bad):
    @spec("C24", K + cls + ".__init__", K + "FunctionConstraint.satisfied", "solver.geometry:" + bad, name=name)
    def s(v):
        ps, cs = three(v)
        ns = [v.u(n) for n in ("v1", "v2", "v3")]
        v.assume(z3.Distinct(*ns))
        v.cover()
        o = v.new(K + cls, *ns)
        r = v.meth(o, "satisfied", v.dict(list(zip(ns, ps))))
        v.ensure(name + " is decided", r.ok)
        if r.ok:
            v.ensure(name + " gives a truth value", v.isbool(r.value))
            v.ensure(name + " accepts exactly the documented triples",
                     v.true(r.value) == z3.Not(classes(cross(*cs))[bad]))
        g = v.meth(o, "variables")
        v.ensure("variables reported", g.ok)
        if g.ok:
            names_are(v, "in order", g.value, ns)


orient("not_clockwise", "NotClockwiseConstraint", "is_clockwise")
orient("not_counterclockwise", "NotCounterClockwiseConstraint", "is_counterclockwise")


def angle(name, cls, fn):
    @spec("C24", K + cls + ".__init__", K + "FunctionConstraint.satisfied", name=name)
    def s(v):
        """With the contract of the geometry predicate (C18: it never fails, and is a truth value determined by the
        six coordinates) at the call site."""
        ps, cs = three(v)
        ns = [v.u(n) for n in ("v1", "v2", "v3")]
        v.assume(z3.Distinct(*ns))
        v.cover()
        P = z3.Function(fn, *([R] * 6 + [B]))
        at = lambda *qs: P(*[v.r(x) for q in qs for x in (v.attr(q, "x"), v.attr(q, "y"))])
        v.use("solver.geometry:" + fn, lambda v, *qs: at(*qs))
        o = v.new(K + cls, *ns)
        r = v.meth(o, "satisfied", v.dict(list(zip(ns, ps))))
        v.ensure(name + " is decided", r.ok)
        if r.ok:
            v.ensure(name + " gives a truth value", v.isbool(r.value))
            v.ensure(name + " accepts exactly what the predicate rejects", v.true(r.value) == z3.Not(at(*ps)))


angle("not_obtuse", "NotObtuseConstraint", "is_obtuse")
angle("not_acute", "NotAcuteConstraint", "is_acute")


@spec("C24", K + "PlusConstraint.__init__", K + "PlusConstraint.satisfied")
def plus(v):
    ns = [v.u(n) for n in "abc"]
    x, y, z = [v.real(n) for n in "xyz"]
    v.assume(z3.Distinct(*ns))
    v.cover()
    o = v.new(K + "PlusConstraint", *ns)
    r = v.meth(o, "satisfied", v.dict(list(zip(ns, (x, y, z)))))
    v.ensure("plus is decided", r.ok)
    if r.ok:
        v.ensure("plus holds exactly when the first two sum to the third", v.true(r.value) == (x + y == z))
    g = v.meth(o, "variables")
    v.ensure("variables reported", g.ok)
    if g.ok:
        names_are(v, "in order", g.value, ns)


@spec("C24", K + "PlusConstraint.satisfied")
def plus_shared_names(v):
    """Any mapping, also with coinciding variables."""
    ns = [v.u(n) for n in "abc"]
    d, D, W = sym_map(v, "mapping")
    for x in ns:
        v.assume(D(x))
    v.cover()
    o = v.new(K + "PlusConstraint", *ns)
    r = v.meth(o, "satisfied", d)
    v.ensure("plus is decided", r.ok)
    if r.ok:
        v.ensure("plus compares the sum of the first two with the third",
                 v.true(r.value) == (z3.Function("u_add", U, U, U)(W(ns[0]), W(ns[1])) == W(ns[2])))
    X, _ = vars2(v)
    v.ensure("the mapping is not changed", same_map(v, d, D, W, X))
