"""C12: vector algebra."""
import z3
from pyvc.verify import spec, R
from pyvc.values import *

G = "solver.geometry:Vector."


def xy(v, o):
    return v.r(v.attr(o, "x")), v.r(v.attr(o, "y"))


def fresh_result(v, name, out, operands, ex, ey):
    """The outcome is a new Vector (ex, ey); the operands keep their coordinates, also when the result is
    overwritten afterwards."""
    v.ensure(name + " returns", out.ok)
    if not out.ok:
        return
    r = out.value
    v.ensure(name + " gives a Vector", isinstance(r, Obj) and r.cls is v.it.get_class("solver.geometry:Vector"))
    x, y = xy(v, r)
    v.ensure(name + " has the componentwise coordinates", z3.And(x == ex, y == ey))
    for o, ox, oy in operands:
        v.ensure(name + " gives a new vector", r is not o)
        a, b = xy(v, o)
        v.ensure(name + " leaves its operands unchanged", z3.And(a == ox, b == oy))
    v.it.set_attr(r, "x", z3.Const("other.x", R))
    v.it.set_attr(r, "y", z3.Const("other.y", R))
    for o, ox, oy in operands:
        a, b = xy(v, o)
        v.ensure(name + " shares no state with its operands", z3.And(a == ox, b == oy))


def vv(v):
    p, q = v.vec("p"), v.vec("q")
    return p, q, [v.inputs[n] for n in ("p.x", "p.y", "q.x", "q.y")]


def binary(op, name, f):
    @spec("C12", G + "__%s__" % name, name="vector_" + name)
    def s(v):
        p, q, (px, py, qx, qy) = vv(v)
        if op == "/":
            v.assume(z3.And(qx != 0, qy != 0))
        v.cover()
        fresh_result(v, "vector %s vector" % op, v.op(op, p, q), [(p, px, py), (q, qx, qy)], f(px, qx), f(py, qy))

    @spec("C12", G + "__%s__" % name, name="vector_scalar_" + name)
    def s2(v):
        p, k = v.vec("p"), v.real("k")
        px, py = v.inputs["p.x"], v.inputs["p.y"]
        if op == "/":
            v.assume(k != 0)
        fresh_result(v, "vector %s scalar" % op, v.op(op, p, k), [(p, px, py)], f(px, k), f(py, k))

    @spec("C12", G + "__%s__" % name, name="vector_self_" + name)
    def s3(v):
        p = v.vec("p")
        px, py = v.inputs["p.x"], v.inputs["p.y"]
        if op == "/":
            v.assume(z3.And(px != 0, py != 0))
        fresh_result(v, "vector %s itself" % op, v.op(op, p, p), [(p, px, py)], f(px, px), f(py, py))


binary("+", "add", lambda a, b: a + b)
binary("-", "sub", lambda a, b: a - b)
binary("*", "mul", lambda a, b: a * b)
binary("/", "truediv", lambda a, b: a / b)


@spec("C12", G + "__init__", G + "x", G + "y", G + "__getitem__")
def construct(v):
    p = v.vec("p")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    x, y = xy(v, p)
    v.ensure("a vector has the coordinates it was built from", z3.And(x == px, y == py))
    for i, e in ((0, px), (1, py)):
        o = v.meth(p, "__getitem__", i)
        v.ensure("indexing gives the coordinates", o.ok and v.r(o.value) == e)
    fresh_result(v, "copy constructor", v.call(v.it.get_class("solver.geometry:Vector"), p), [(p, px, py)], px, py)
    o = v.cm("solver.geometry:Vector", "origin")
    fresh_result(v, "origin", o, [], z3.RealVal(0), z3.RealVal(0))


@spec("C12", G + "__neg__")
def negation(v):
    p = v.vec("p")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    fresh_result(v, "negation", v.meth(p, "__neg__"), [(p, px, py)], -px, -py)


@spec("C12", G + "dot")
def dot(v):
    p, q, (px, py, qx, qy) = vv(v)
    o = v.meth(p, "dot", q)
    v.ensure("dot returns", o.ok)
    if o.ok:
        v.ensure("dot is the Euclidean dot product", v.r(o.value) == px * qx + py * qy)
    x, y = xy(v, p)
    x2, y2 = xy(v, q)
    v.ensure("dot leaves its operands unchanged", z3.And(x == px, y == py, x2 == qx, y2 == qy))


@spec("C12", G + "length", "solver.geometry:distance_2p")
def length(v):
    p = v.vec("p")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    o = v.call(lambda_attr(v, p, "length"))
    v.ensure("length never fails", o.ok)
    if o.ok:
        l = v.r(o.value)
        v.ensure("length is not negative", l >= 0)
        d = v.meth(p, "dot", p)
        v.ensure("the square of the length is the dot product with itself", l * l == px * px + py * py)
        v.ensure("dot of a vector with itself returns", d.ok)
        v.ensure("dot with itself", v.r(d.value) == px * px + py * py)
    x, y = xy(v, p)
    v.ensure("length leaves the vector unchanged", z3.And(x == px, y == py))
    q = v.vec("q")
    qx, qy = v.inputs["q.x"], v.inputs["q.y"]
    o = v.call("solver.geometry:distance_2p", p, q)
    v.ensure("distance never fails", o.ok)
    if o.ok:
        d = v.r(o.value)
        v.ensure("distance of two points", z3.And(d >= 0, d * d == (px - qx) * (px - qx) + (py - qy) * (py - qy)))


def lambda_attr(v, o, name):
    return Builtin("attr", lambda: v.attr(o, name))


def trig(v, a):
    """Specification sine and cosine of an angle in degrees."""
    t = a * v.ctx.get_pi() / 180
    return v.r(v.it.math_trig("cos", t)), v.r(v.it.math_trig("sin", t))


@spec("C12", G + "rotate")
def rotate(v):
    p, a = v.vec("p"), v.real("a")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    c, s = trig(v, a)
    fresh_result(v, "rotation", v.meth(p, "rotate", a), [(p, px, py)], px * c - py * s, px * s + py * c)


@spec("C12", G + "rotate")
def rotate_laws(v):
    p, a = v.vec("p"), v.real("a")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    o = v.meth(p, "rotate", a)
    v.ensure("rotation returns", o.ok)
    x, y = xy(v, o.value)
    v.ensure("rotation preserves the length", x * x + y * y == px * px + py * py)
    b = v.meth(o.value, "rotate", -a)
    v.ensure("rotation back returns", b.ok)
    x, y = xy(v, b.value)
    v.ensure("rotation is undone by the opposite rotation", z3.And(x == px, y == py))


@spec("C12", G + "azimuth")
def azimuth(v):
    p = v.vec("p")
    px, py = v.inputs["p.x"], v.inputs["p.y"]
    o = v.call(lambda_attr(v, p, "azimuth"))
    v.ensure("azimuth never fails", o.ok)
    if o.ok:
        v.ensure("azimuth is the direction angle in degrees",
                 v.r(o.value) * v.ctx.get_pi() == 180 * v.r(v.it.math_atan2(py, px)))
    x, y = xy(v, p)
    v.ensure("azimuth leaves the vector unchanged", z3.And(x == px, y == py))


@spec("C12", name="augmented")
def augmented(v):
    """p += q and the like rebind: the operand object keeps its coordinates."""
    for op in "+-*":
        p, q, (px, py, qx, qy) = vv(v)
        try:
            r = v.it.aug(op, p, q)
        except PyRaise as e:
            v.ensure("augmented %s returns" % op, False)
            continue
        x, y = xy(v, p)
        v.ensure("augmented %s leaves its operands unchanged" % op, z3.And(x == px, y == py))
        v.ensure("augmented %s gives a new vector" % op, r is not p)
