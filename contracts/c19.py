"""C19: coordinate frames and transforms between them."""
import z3
from pyvc.verify import spec, R
from pyvc.values import *
from contracts.c12 import xy
from contracts.c13 import entries, is_matrix
from contracts.c17 import TOL

G = "solver.geometry:"


def two(v, n1, n2):
    a, b = v.vec(n1), v.vec(n2)
    return a, b, [(v.inputs[n + ".x"], v.inputs[n + ".y"]) for n in (n1, n2)]


def dist(v, a, b):
    return v._sqrt((b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]))


def untouched(v, ps, cs, name):
    for p, c in zip(ps, cs):
        x, y = xy(v, p)
        v.ensure(name + " leaves the points unchanged", z3.And(x == c[0], y == c[1]))


FORMS = [("make_hcs", (), {}, False), ("make_hcs", (True,), {}, True), ("make_hcs", (), {"scale": True}, True),
         ("make_hcs", (), {"scale": False}, False), ("make_hcs_scaled", (), {}, True)]


def frame(i, fname, args, kw, scaled):
    @spec("C19", G + fname, name="frame_%d_%s" % (i, fname))
    def s(v):
        a, b, (ca, cb) = two(v, "a", "b")
        d = dist(v, ca, cb)
        o = v.call(G + fname, a, b, *args, **kw)
        v.ensure("building a frame never fails", o.ok)
        if not o.ok:
            return
        v.ensure("a frame is None exactly when the points coincide within tolerance",
                 (d <= TOL) if o.value is None else (d > TOL))
        untouched(v, (a, b), (ca, cb), "building a frame")
        if o.value is None:
            return
        if not is_matrix(v, "building a frame", o):
            return
        m = entries(v, o.value)
        v.ensure("a frame is 3x3", [len(r) for r in m] == [3, 3, 3])
        m = [[v.r(x) for x in r] for r in m]
        v.ensure("the origin of the frame is the first point",
                 z3.And(m[0][2] == ca[0], m[1][2] == ca[1]))
        v.ensure("the last row is homogeneous", z3.And(m[2][0] == 0, m[2][1] == 0, m[2][2] == 1))
        k = z3.RealVal(1) if scaled else d
        v.ensure("the first axis points to the second point, with the right length",
                 z3.And(m[0][0] * k == cb[0] - ca[0], m[1][0] * k == cb[1] - ca[1]))
        v.ensure("the second axis is the first one turned a quarter counter-clockwise",
                 z3.And(m[0][1] == -m[1][0], m[1][1] == m[0][0]))


for _i, _f in enumerate(FORMS):
    frame(_i, *_f)


@spec("C19")
def unit_axes(v):
    """Consequence: the first axis of an unscaled frame has unit length."""
    x, y, d, ux, uy = [v.real(n) for n in ("x", "y", "d", "ux", "uy")]
    v.assume(z3.And(d > 0, d * d == x * x + y * y, ux * d == x, uy * d == y))
    v.ensure("unit length", ux * ux + uy * uy == 1)


def sym_frame(v, n, unit):
    """A frame as make_hcs gives it: first axis (c, s), second axis (-s, c), origin (x, y)."""
    c, s, x, y = [v.real(n + k) for k in "csxy"]
    e = [[c, -s, x], [s, c, y], [z3.RealVal(0), z3.RealVal(0), z3.RealVal(1)]]
    if unit:
        v.assume(c * c + s * s == 1)
    else:
        v.assume(c * c + s * s > 0)
    return v.new("solver.geometry:Matrix", v.list([v.list(r) for r in e])), e


def transform(unit):
    @spec("C19", G + "cs_transform_matrix", name="transform_%s" % ("unit" if unit else "scaled"))
    def s(v):
        f, ef = sym_frame(v, "f", unit)
        g, eg = sym_frame(v, "g", unit)
        v.cover()
        o = v.call(G + "cs_transform_matrix", f, g)
        if not is_matrix(v, "the transform between two frames", o):
            return
        m = entries(v, o.value)
        v.ensure("a transform is 3x3", [len(r) for r in m] == [3, 3, 3])
        m = [[v.r(x) for x in r] for r in m]
        for i in range(3):
            for j in range(3):
                v.ensure("the transform takes the first frame onto the second (%d, %d)" % (i, j),
                         z3.Sum([m[i][k] * ef[k][j] for k in range(3)]) == eg[i][j])
        if unit:
            v.ensure("the transform is a rotation and translation: last row",
                     z3.And(m[2][0] == 0, m[2][1] == 0, m[2][2] == 1))
            v.ensure("the transform is a rotation: axes", z3.And(m[0][0] == m[1][1], m[0][1] == -m[1][0]))
            v.ensure("the transform preserves lengths", m[0][0] * m[0][0] + m[1][0] * m[1][0] == 1)
        for q, e in ((f, ef), (g, eg)):
            got = entries(v, q)
            v.ensure("the frames are unchanged", z3.And(*[v.r(a) == b for ra, rb in zip(got, e)
                                                            for a, b in zip(ra, rb)]))


transform(True)
transform(False)
