"""C11: tolerant comparison."""
import z3
from fractions import Fraction
from pyvc.verify import spec, R

S = "solver.geometry:Scalar"
REL, ABS = z3.RealVal("1/100000"), z3.RealVal("1/100000000")


def absr(x):
    return z3.If(x >= 0, x, -x)


def teq(a, b, rel=REL, ab=ABS):
    return absr(a - b) <= ab + rel * absr(b)


def forms(v, rel, ab):
    """The ways tolerances can be given."""
    yield "defaults", {}, REL, ABS
    yield "rel", {"rel_tol": rel}, rel, ABS
    yield "abs", {"abs_tol": ab}, REL, ab
    yield "both", {"rel_tol": rel, "abs_tol": ab}, rel, ab


def with_args(v, f):
    a, b = v.real("a"), v.real("b")
    rel, ab = v.real("rel"), v.real("abs")
    v.assume(z3.And(rel >= 0, ab >= 0))
    v.cover()
    for form, kw, re, ae in forms(v, rel, ab):
        f(a, b, kw, re, ae, form)
    # positionally: relative tolerance first
    f(a, b, (rel, ab), rel, ab, "positional")


def callf(v, name, a, b, kw):
    if isinstance(kw, tuple):
        return v.cm(S, name, a, b, *kw)
    return v.cm(S, name, a, b, **kw)


def mk(name, want):
    def f(v):
        def one(a, b, kw, re, ae, form):
            o = callf(v, name, a, b, kw)
            v.ensure("%s(%s) returns" % (name, form), o.ok)
            if o.ok:
                v.ensure("%s(%s) is a truth value" % (name, form), v.isbool(o.value))
                v.ensure("%s(%s) follows the tolerance formula" % (name, form), v.true(o.value) == want(a, b, re, ae))
        with_args(v, one)
    f.__name__ = name
    return f


spec("C11", "solver.geometry:Scalar.tol_eq")(mk("tol_eq", teq))
spec("C11", "solver.geometry:Scalar.tol_lt")(mk("tol_lt", lambda a, b, re, ae: z3.And(a < b, z3.Not(teq(a, b, re, ae)))))
spec("C11", "solver.geometry:Scalar.tol_gt")(mk("tol_gt", lambda a, b, re, ae: z3.And(a > b, z3.Not(teq(a, b, re, ae)))))
spec("C11", "solver.geometry:Scalar.tol_le")(mk("tol_le", lambda a, b, re, ae: z3.Or(a < b, teq(a, b, re, ae))))
spec("C11", "solver.geometry:Scalar.tol_ge")(mk("tol_ge", lambda a, b, re, ae: z3.Or(a > b, teq(a, b, re, ae))))


@spec("C11", "solver.geometry:Scalar.tol_zero")
def tol_zero(v):
    a = v.real("a")
    rel, ab = v.real("rel"), v.real("abs")
    v.assume(z3.And(rel >= 0, ab >= 0))
    for form, kw, re, ae in list(forms(v, rel, ab)) + [("positional", (rel, ab), rel, ab)]:
        args = (kw, {}) if isinstance(kw, tuple) else ((), kw)
        o = v.cm(S, "tol_zero", a, *args[0], **args[1])
        v.ensure("tol_zero(%s) returns" % form, o.ok)
        if o.ok:
            v.ensure("tol_zero(%s) compares with zero as reference" % form, v.true(o.value) == (absr(a) <= ae))


@spec("C11", "solver.geometry:Vector.tol_eq")
def vector_tol_eq(v):
    p, q = v.vec("p"), v.vec("q")
    px, py, qx, qy = [v.inputs[n] for n in ("p.x", "p.y", "q.x", "q.y")]
    rel, ab = v.real("rel"), v.real("abs")
    v.assume(z3.And(rel >= 0, ab >= 0))
    for form, kw, re, ae in forms(v, rel, ab):
        o = v.meth(p, "tol_eq", q, **kw)
        v.ensure("Vector.tol_eq(%s) returns" % form, o.ok)
        if o.ok:
            v.ensure("Vector.tol_eq(%s) is tolerant equality of both coordinates" % form,
                     v.true(o.value) == z3.And(teq(px, qx, re, ae), teq(py, qy, re, ae)))


@spec("C11")
def trichotomy(v):
    """Lemma over the formulas: exactly one of less, equal, greater."""
    a, b, rel, ab = v.real("a"), v.real("b"), v.real("rel"), v.real("abs")
    v.assume(z3.And(rel >= 0, ab >= 0))
    e = teq(a, b, rel, ab)
    lt, gt = z3.And(a < b, z3.Not(e)), z3.And(a > b, z3.Not(e))
    v.ensure("exactly one of tol_lt, tol_eq, tol_gt", z3.PbEq([(lt, 1), (e, 1), (gt, 1)], 1))
    v.ensure("tol_le is the union of tol_lt and tol_eq", z3.Or(a < b, e) == z3.Or(lt, e))
    v.ensure("tol_ge is the union of tol_gt and tol_eq", z3.Or(a > b, e) == z3.Or(gt, e))
