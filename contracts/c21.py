"""C21: merging configurations."""
import z3
from pyvc.verify import spec, Out
from pyvc.values import *
from pyvc.ops import *
from contracts.conflib import *
from contracts.c17 import TOL

G = "solver.geometry:"
TM = CONF + ".transformation_matrix"


def matrix(v, rows):
    return v.new(G + "Matrix", v.list([v.list(r) for r in rows]))


def entries(v, m):
    return [[v.r(x) for x in v.items(r)] for r in v.items(v.attr(m, "elements"))]


def dist(v, p, q):
    return v._sqrt((q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1]))


def use_frames(v):
    """The contracts of make_hcs and cs_transform_matrix (proved as C19).  Gives the frames built."""
    built = []

    def make_hcs(v, a, b, scale):
        if scale is not False:
            return MISSING
        (ax, ay), (bx, by) = [(v.r(v.attr(p, "x")), v.r(v.attr(p, "y"))) for p in (a, b)]
        d = dist(v, (ax, ay), (bx, by))
        if v.split(d <= TOL):
            return None
        c, s = v.ctx.const("axis_c", R), v.ctx.const("axis_s", R)
        v.assume(z3.And(c * d == bx - ax, s * d == by - ay, c * c + s * s == 1))
        built.append(((ax, ay), (bx, by), (c, s), d))
        return matrix(v, [[c, -s, ax], [s, c, ay], [Fraction(0), Fraction(0), Fraction(1)]])

    def transform(v, f, g):
        if f is None or g is None:
            return MISSING
        F, H = entries(v, f), entries(v, g)
        for m in (F, H):
            if [len(r) for r in m] != [3, 3, 3]:
                return MISSING
            unit = z3.And(m[0][0] == m[1][1], m[0][1] == -m[1][0], m[0][0] * m[0][0] + m[1][0] * m[1][0] == 1,
                          m[2][0] == 0, m[2][1] == 0, m[2][2] == 1)
            if not v.it.prove(unit):
                return MISSING
        c, s, x, y = [v.ctx.const("t" + k, R) for k in "csxy"]
        # the transform takes the first frame onto the second
        v.assume(z3.And(c * c + s * s == 1,
                        c * F[0][0] - s * F[1][0] == H[0][0], s * F[0][0] + c * F[1][0] == H[1][0],
                        c * F[0][2] - s * F[1][2] + x == H[0][2], s * F[0][2] + c * F[1][2] + y == H[1][2]))
        return matrix(v, [[c, -s, x], [s, c, y], [Fraction(0), Fraction(0), Fraction(1)]])
    v.use(G + "make_hcs", make_hcs)
    v.use(G + "cs_transform_matrix", transform)
    return built


def apply(m, p):
    """The motion m = (c, s, x, y) of a point."""
    c, s, x, y = m
    return c * p[0] - s * p[1] + x, s * p[0] + c * p[1] + y


def overlaps(m, p, q):
    """m takes p onto q."""
    x, y = apply(m, p)
    return z3.And(x == q[0], y == q[1])


def rigid(v, t):
    """The matrix as a motion, and the fact that it is one."""
    e = entries(v, t)
    return (e[0][0], e[1][0], e[0][2], e[1][2]), z3.And(
        e[0][0] == e[1][1], e[0][1] == -e[1][0], e[0][0] * e[0][0] + e[1][0] * e[1][0] == 1,
        e[2][0] == 0, e[2][1] == 0, e[2][2] == 1)


def no_pair_apart(v, D, E, P, Q):
    """Squared distances: no two shared points are further apart than the tolerance in both configurations."""
    x, y = z3.Consts("hx hy", U)
    sq = lambda p, q: (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])
    t2 = TOL * TOL
    return z3.ForAll([x, y], z3.Implies(z3.And(D(x), E(x), D(y), E(y)),
                                        z3.Or(sq(P(x), P(y)) <= t2, sq(Q(x), Q(y)) <= t2)))


def is_rigid_matrix(v, t):
    return isinstance(t, Obj) and t.cls.issub(v.it.get_class(G + "Matrix")) and \
        [len(v.items(r)) for r in v.items(v.attr(t, "elements"))] == [3, 3, 3]


def same_motion(v, built, T, M, apart):
    """A motion M that takes the two points of the second frame to those of the first one is T."""
    if len(built) != 2 or any(z3.is_rational_value(z3.simplify(k[1][0] - k[0][0])) for k in built):
        v.ensure("with two shared points apart, the frames are those of two shared points", z3.Not(apart))
        return
    (a1, a2, A, da), (b1, b2, Bv, db) = built
    facts = [M[0] * M[0] + M[1] * M[1] == 1, overlaps(M, b1, a1), overlaps(M, b2, a2)]
    for f in facts:
        v.lemma("the motion overlaps the points of the frames", f)
    sq = lambda p, q: (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])
    lens = [da > 0, db > 0, da * da == sq(a1, a2), db * db == sq(b1, b2)]
    for f in lens:
        v.lemma("lengths of the axes", f)
    axes = [A[0] * da == a2[0] - a1[0], A[1] * da == a2[1] - a1[1], Bv[0] * db == b2[0] - b1[0],
            Bv[1] * db == b2[1] - b1[1], A[0] * A[0] + A[1] * A[1] == 1, Bv[0] * Bv[0] + Bv[1] * Bv[1] == 1]
    for f in axes:
        v.lemma("the axes", f)
    rot = lambda m: z3.And(m[0] * Bv[0] - m[1] * Bv[1] == A[0], m[1] * Bv[0] + m[0] * Bv[1] == A[1])
    frames = [rot(T), overlaps(T, b1, a1)]
    for f in frames:
        v.lemma("the transform takes frame to frame", f)
    v.derive("squared lengths agree", facts + lens[2:], da * da == db * db)
    v.derive("lengths agree", [da * da == db * db] + lens[:2], da == db)
    v.derive("the motion turns the axis, scaled", facts + axes[:4] + [da == db],
             z3.And(da * (M[0] * Bv[0] - M[1] * Bv[1]) == da * A[0], da * (M[1] * Bv[0] + M[0] * Bv[1]) == da * A[1]))
    v.derive("the motion turns the axis", [da > 0, da * (M[0] * Bv[0] - M[1] * Bv[1]) == da * A[0],
                                           da * (M[1] * Bv[0] + M[0] * Bv[1]) == da * A[1]], rot(M))
    unit = axes[5]
    for m in (M, T):
        v.derive("the rotation between two axes", [rot(m), unit],
                 z3.And(m[0] == Bv[0] * A[0] + Bv[1] * A[1], m[1] == Bv[0] * A[1] - Bv[1] * A[0]))
    v.derive("the rotations agree", [z3.And(m[0] == Bv[0] * A[0] + Bv[1] * A[1], m[1] == Bv[0] * A[1] - Bv[1] * A[0])
                                     for m in (M, T)], z3.And(T[0] == M[0], T[1] == M[1]))
    v.derive("the translations agree", [T[0] == M[0], T[1] == M[1], overlaps(M, b1, a1), overlaps(T, b1, a1)],
             z3.And(T[2] == M[2], T[3] == M[3]))
    v.ensure("the motion that overlaps all shared points is the one used", And(*[x == y for x, y in zip(T, M)]))


@spec("C21", TM)
def transformation(v):
    built = use_frames(v)
    a, D, P, _ = sym_conf(v, "a")
    b, E, Q, _ = sym_conf(v, "b")
    ua, ub = v.inputs["a_under"], v.inputs["b_under"]
    shared = lambda n: z3.And(D(n), E(n))
    p, q, n = v.u("p"), v.u("q"), v.u("n")
    v.cover()
    o = v.meth(a, "transformation_matrix", b)
    v.ensure("the transform between two configurations is always found", o.ok)
    if not o.ok:
        return
    good = isinstance(o.value, tuple) and len(o.value) == 2 and is_rigid_matrix(v, o.value[0])
    v.ensure("a transform and a flag", good)
    if not good:
        return
    T, isrigid = rigid(v, o.value[0])
    under = v.true(o.value[1])
    v.ensure("the transform is a rotation and a translation", isrigid)
    apart = lambda x, y: z3.And(shared(x), shared(y), dist(v, P(x), P(y)) > TOL, dist(v, Q(x), Q(y)) > TOL)
    # the status
    x, y = z3.Consts("hx hy", U)
    none = z3.ForAll([x], z3.Not(shared(x)))
    one = z3.And(shared(p), z3.ForAll([x], z3.Implies(shared(x), x == p)))
    v.ensure("underconstrained when an operand is", z3.Implies(z3.Or(ua, ub), under))
    v.ensure("underconstrained when no point is shared", z3.Implies(none, under))
    more = lambda M, k: z3.And(M(k), k != p)
    v.ensure("underconstrained when one point is shared and both have others",
             z3.Implies(z3.And(one, more(D, q), more(E, n)), under))
    v.ensure("one shared point determines the merge when one configuration has no other",
             z3.Implies(z3.And(one, z3.Not(ua), z3.Not(ub), z3.Or(z3.ForAll([x], z3.Implies(D(x), x == p)), z3.ForAll([x], z3.Implies(E(x), x == p)))), z3.Not(under)))
    v.ensure("two shared points apart in both determine the merge",
             z3.Implies(z3.And(apart(p, q), z3.Not(ua), z3.Not(ub)), z3.Not(under)))
    v.ensure("no two shared points apart in both leave the merge underconstrained",
             z3.Implies(z3.And(shared(p), shared(q), p != q, no_pair_apart(v, D, E, P, Q)), under))
    unchanged(v, "transformation_matrix", a, D, P, ua)
    unchanged(v, "transformation_matrix", b, E, Q, ub)
    # where the shared points go
    v.ensure("a single shared point is overlapped", z3.Implies(one, overlaps(T, Q(p), P(p))))
    v.ensure("some shared point is overlapped", z3.Implies(shared(p), z3.Exists([x], z3.And(shared(x), overlaps(T, Q(x), P(x))))))
    # some rigid motion M overlaps all shared points, and two of them are apart: it is that motion
    M = tuple(v.real("m" + k) for k in "csxy")
    some = z3.And(M[0] * M[0] + M[1] * M[1] == 1,
                  z3.ForAll([x], z3.Implies(shared(x), overlaps(M, Q(x), P(x)))))
    v.assume(some)
    v.assume(z3.And(apart(p, q)))
    same_motion(v, built, T, M, apart(p, q))


def use_transformation(v):
    """The contract of transformation_matrix proved above, as far as a caller needs it."""
    given = []

    def tm(v, this, other):
        for k in (this, other):
            if not isinstance(k, Obj) or not k.cls.issub(v.it.get_class(CONF)):
                return MISSING
        c, s, x, y = m = [v.ctx.const("t" + k, R) for k in "csxy"]
        v.assume(c * c + s * s == 1)
        flag = v.ctx.const("under", B)
        given.append((this, other, m, flag))
        return matrix(v, [[c, -s, x], [s, c, y], [Fraction(0), Fraction(0), Fraction(1)]]), flag
    v.use(TM, tm)
    return given


@spec("C21", CONF + ".merge", CONF + ".transform", CONF + ".add")
def merge(v):
    given = use_transformation(v)
    a, D, P, _ = sym_conf(v, "a")
    b, E, Q, _ = sym_conf(v, "b")
    ua, ub = v.inputs["a_under"], v.inputs["b_under"]
    v.cover()
    o = v.meth(a, "merge", b)
    good = o.ok and isinstance(o.value, tuple) and len(o.value) == 2
    v.ensure("a merge gives a configuration and a flag", good)
    if not good:
        return
    c, flag = o.value
    if not is_conf(v, "merge", Out(c), [a, b]):
        return
    used = [k for k in given if k[0] is a and k[1] is b]
    v.ensure("the merge uses the transform between the two configurations", bool(used))
    if not used:
        return
    _, _, M, under = used[-1]
    v.ensure("the reported status is that of the transform", v.true(flag) == under)
    v.ensure("the merged configuration carries the status", v.true(v.attr(c, "underconstrained")) == under)
    has_points(v, "merge", c, lambda n: z3.Or(D(n), E(n)),
               lambda n: tuple(z3.If(D(n), x, y) for x, y in zip(P(n), apply(M, Q(n)))))
    unchanged(v, "merge", a, D, P, ua)
    unchanged(v, "merge", b, E, Q, ub)


@spec("C21", TM, name="transformation_to_itself")
def transformation_to_itself(v):
    built = use_frames(v)
    a, D, P, _ = sym_conf(v, "a")
    ua = v.inputs["a_under"]
    p, q = v.u("p"), v.u("q")
    v.cover()
    o = v.meth(a, "transformation_matrix", a)
    v.ensure("the transform of a configuration to itself is always found", o.ok)
    if not o.ok:
        return
    T, isrigid = rigid(v, o.value[0])
    under = v.true(o.value[1])
    v.ensure("the transform to itself is a rotation and a translation", isrigid)
    x, y = z3.Consts("hx hy", U)
    apart = lambda x, y: z3.And(D(x), D(y), dist(v, P(x), P(y)) > TOL)
    v.ensure("to itself: underconstrained when an operand is", z3.Implies(ua, under))
    v.ensure("to itself: underconstrained when there is no point", z3.Implies(z3.ForAll([x], z3.Not(D(x))), under))
    v.ensure("to itself: one point determines the merge",
             z3.Implies(z3.And(D(p), z3.Not(ua), z3.ForAll([x], z3.Implies(D(x), x == p))), z3.Not(under)))
    v.ensure("to itself: two points apart determine the merge", z3.Implies(z3.And(apart(p, q), z3.Not(ua)), z3.Not(under)))
    v.ensure("to itself: no two points apart leave the merge underconstrained",
             z3.Implies(z3.And(D(p), D(q), p != q, no_pair_apart(v, D, D, P, P)), under))
    unchanged(v, "transformation_matrix to itself", a, D, P, ua)
    v.ensure("to itself: some shared point is overlapped",
             z3.Implies(D(p), z3.Exists([x], z3.And(D(x), overlaps(T, P(x), P(x))))))


@spec("C21", CONF + ".merge", CONF + ".transform", CONF + ".add", name="merge_with_itself")
def merge_with_itself(v):
    given = use_transformation(v)
    a, D, P, _ = sym_conf(v, "a")
    ua = v.inputs["a_under"]
    v.cover()
    o = v.meth(a, "merge", a)
    good = o.ok and isinstance(o.value, tuple) and len(o.value) == 2
    v.ensure("a merge with itself gives a configuration and a flag", good)
    if not good:
        return
    c, flag = o.value
    if not is_conf(v, "merge with itself", Out(c), [a]):
        return
    used = [k for k in given if k[0] is a and k[1] is a]
    v.ensure("the merge with itself uses the transform", bool(used))
    if used:
        v.ensure("the reported status is that of the transform", v.true(flag) == used[-1][3])
        v.ensure("the merged configuration carries the status", v.true(v.attr(c, "underconstrained")) == used[-1][3])
    has_points(v, "merge with itself", c, D, P)
    unchanged(v, "merge with itself", a, D, P, ua)


@spec("C21")
def isometry(v):
    """A motion that takes two points to two others keeps their distance."""
    M = tuple(v.real("m" + k) for k in "csxy")
    p, q, r, s = [(v.real(n + "x"), v.real(n + "y")) for n in "pqrs"]
    sq = lambda p, q: (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])
    v.assume(z3.And(M[0] * M[0] + M[1] * M[1] == 1, overlaps(M, p, r), overlaps(M, q, s)))
    v.ensure("distances are kept", sq(p, q) == sq(r, s))
