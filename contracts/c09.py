"""C09: the built-in methods compute their documented function."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.graphlib import vars2

M = "solver.method:"


def sym_map(v, name="inmap"):
    """Any mapping from opaque names to opaque values."""
    D, W = z3.Function(name + ".dom", U, B), z3.Function(name + ".val", U, U)
    uu = v.it.to_u
    return v.ctx.new(DictV(SDict(lambda x: D(uu(x)), lambda x: W(uu(x)), SU, SU))), (lambda x: D(x)), (lambda x: W(x))


def same_map(v, d, D, W, X):
    r = d.rep
    return And(zb(r.dom(X)) == D(X), Implies(D(X), v.it.to_u(r.val(X)) == W(X)))


def names_are(v, label, l, want):
    items = v.items(l) if isinstance(l, ListV) else None
    v.ensure(label, items is not None and len(items) == len(want) and And(*[v.it.eq(a, b) for a, b in zip(items, want)]))


def method(name, cls, make, ins, want):
    """want(v, D, W, names): (defined, value) of the output."""
    @spec("C09", M + cls + ".__init__", M + cls + ".execute", M + "Method.__init__", name=name)
    def s(v):
        ns = [v.u(n) for n in ("a", "b", "c")]
        val = v.u("value")
        d, D, W = sym_map(v)
        v.cover()
        o = v.new(M + cls, *make(ns, val))
        out = ns[2]
        names_are(v, name + " has the documented inputs", v.attr(o, "inputs"), ins(ns))
        names_are(v, name + " has one output", v.attr(o, "outputs"), [out])
        X, Y = vars2(v)
        for again in ("", " again"):
            r = v.meth(o, "execute", d)
            v.ensure(name + " raises nothing", r.ok)
            if not r.ok:
                return
            v.ensure(name + " gives a mapping of its own", isinstance(r.value, DictV) and r.value is not d)
            defined, value = want(v, D, W, ns, val)
            dom = lambda x: zb(r.value.rep.dom(x))
            v.ensure(name + " gives no other variable" + again, z3.Implies(dom(X), X == out))
            v.ensure(name + " gives its output exactly when its inputs are there" + again, dom(out) == zb(defined))
            if v.split(defined):
                v.ensure(name + " computes its function" + again, v.it.to_u(r.value.rep.val(out)) == value)
            v.ensure(name + " leaves the input mapping as it was", same_map(v, d, D, W, X))


def both(v, D, W, ns):
    none = v.ctx.uconst(None)
    return And(*[And(D(x), W(x) != none) for x in ns[:2]])


def fn(op):
    return z3.Function("u_" + op, U, U, U)


method("add", "AddMethod", lambda n, w: n, lambda n: n[:2],
       lambda v, D, W, n, w: (both(v, D, W, n), fn("add")(W(n[0]), W(n[1]))))
method("sub", "SubMethod", lambda n, w: n, lambda n: n[:2],
       lambda v, D, W, n, w: (both(v, D, W, n), fn("sub")(W(n[0]), W(n[1]))))
method("set", "SetMethod", lambda n, w: (n[2], w), lambda n: [], lambda v, D, W, n, w: (True, w))
method("assign", "AssignMethod", lambda n, w: (n[2], n[1]), lambda n: [n[1]], lambda v, D, W, n, w: (D(n[1]), W(n[1])))


def numbers(name, cls, op):
    @spec("C09", M + cls + ".execute", name=name + "_of_numbers")
    def s(v):
        a, b, c = [v.u(n) for n in "abc"]
        x, y = v.real("x"), v.real("y")
        v.assume(z3.Distinct(a, b, c))
        v.cover()
        o = v.new(M + cls, a, b, c)
        d = v.dict([(a, x), (b, y)])
        r = v.meth(o, "execute", d)
        v.ensure(name + " raises nothing on numbers", r.ok)
        if r.ok:
            v.ensure(name + " gives its output", zb(r.value.rep.dom(c)))
            v.ensure(name + " is exact on numbers", v.r(r.value.rep.val(c)) == op(x, y))


numbers("add", "AddMethod", lambda x, y: x + y)
numbers("sub", "SubMethod", lambda x, y: x - y)
