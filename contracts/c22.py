"""C22: configuration equality means congruence, and equal configurations hash alike."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.conflib import *
from contracts.c17 import TOL
from contracts.c21 import matrix, apply, overlaps, dist, TM

EQ = CONF + ".__eq__"


def use_transformation(v, M=None):
    """The contract of transformation_matrix (proved as C21), for the motion M of the specification:
    the transform is rigid, overlaps some shared point, and is M where M overlaps all shared points and two of
    them are apart."""
    given = []

    def tm(v, this, other):
        for k in (this, other):
            if not isinstance(k, Obj) or not k.cls.issub(v.it.get_class(CONF)):
                return MISSING
        (D, P), (E, Q) = names_points(v, this), names_points(v, other)
        T = [v.ctx.const("t" + k, R) for k in "csxy"]
        v.assume(T[0] * T[0] + T[1] * T[1] == 1)
        shared = lambda n: z3.And(zb(D(n)), zb(E(n)))
        w = v.ctx.const("overlapped", U)
        x, y = z3.Consts("hx hy", U)
        v.assume(z3.Implies(shared(w), overlaps(T, Q(w), P(w))))
        v.assume(z3.Or(shared(w), z3.ForAll([x], z3.Not(shared(x)))))
        if M is not None:
            some = z3.And(M[0] * M[0] + M[1] * M[1] == 1,
                          z3.ForAll([x], z3.Implies(shared(x), overlaps(M, Q(x), P(x)))))
            # a motion keeps distances (lemma in C21), so "apart in both" is "apart in one"
            is_m = z3.And(*[a == b for a, b in zip(T, M)])
            no_apart = z3.ForAll([x, y], z3.Implies(z3.And(shared(x), shared(y)), near(Q(x), Q(y))))
            v.assume(z3.Implies(some, z3.Or(is_m, no_apart)))
            # hence, here, the transform overlaps every shared point
            n = v.ctx.const("n", U)
            both = z3.And(shared(n), shared(w))
            if v.split(is_m):
                v.lemma("the transform overlaps a shared point (it is the motion)", z3.Implies(both, overlaps(T, Q(n), P(n))))
            else:
                v.lemma("shared points are near the overlapped one", z3.Implies(both, near(Q(n), Q(w))))
                v.lemma("shared points coincide", z3.Implies(both, z3.And(Q(n)[0] == Q(w)[0], Q(n)[1] == Q(w)[1])))
                v.lemma("the motion overlaps", z3.Implies(both, z3.And(overlaps(M, Q(n), P(n)), overlaps(M, Q(w), P(w)))))
                v.lemma("shared points coincide in the other", z3.Implies(both, z3.And(P(n)[0] == P(w)[0], P(n)[1] == P(w)[1])))
                v.lemma("the transform overlaps a shared point", z3.Implies(both, overlaps(T, Q(n), P(n))))
            v.assume(z3.ForAll([x], z3.Implies(shared(x), overlaps(T, Q(x), P(x)))))
        given.append((this, other, T))
        c, s, dx, dy = T
        return matrix(v, [[c, -s, dx], [s, c, dy], [Fraction(0), Fraction(0), Fraction(1)]]), v.ctx.const("under", B)
    v.use(TM, tm)
    return given


def near(p, q):
    """At most the tolerance apart, without roots."""
    return (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1]) <= TOL * TOL


def two(v):
    return sym_conf(v, "a"), sym_conf(v, "b")


@spec("C22", EQ)
def equal_means_congruent(v):
    given = use_transformation(v)
    (a, D, P, _), (b, E, Q, _) = two(v)
    ua, ub = v.inputs["a_under"], v.inputs["b_under"]
    v.cover()
    e = v.true(v.it.eq(a, b))
    n = v.u("n")
    v.ensure("configurations with different names are not equal", z3.Implies(D(n) != E(n), z3.Not(e)))
    if v.split(e):
        used = [k for k in given if k[0] is a and k[1] is b]
        v.ensure("equal configurations are compared through one motion", bool(used))
        if used:
            T = used[-1][2]
            v.ensure("equal: every point is carried onto the point of the same name",
                     z3.Implies(D(n), near(apply(T, Q(n)), P(n))))
    unchanged(v, "comparing", a, D, P, ua)
    unchanged(v, "comparing", b, E, Q, ub)


@spec("C22", EQ)
def congruent_means_equal(v):
    M = tuple(v.real("m" + k) for k in "csxy")
    given = use_transformation(v, M)
    (a, D, P, _), (b, E, Q, _) = two(v)
    x, y = z3.Consts("hx hy", U)
    v.assume(M[0] * M[0] + M[1] * M[1] == 1)
    v.assume(z3.ForAll([x], D(x) == E(x), patterns=[D(x)]))
    v.assume(z3.ForAll([x], z3.Implies(D(x), overlaps(M, Q(x), P(x))), patterns=[D(x)]))
    # points of a configuration coincide exactly, or are further apart than the tolerance
    same = lambda p, q: z3.And(p[0] == q[0], p[1] == q[1])
    v.assume(z3.ForAll([x, y], z3.Implies(z3.And(D(x), D(y)), z3.Or(z3.Not(near(Q(x), Q(y))), same(Q(x), Q(y)))),
                       patterns=[z3.MultiPattern(D(x), D(y))]))
    v.cover()
    e = v.true(v.it.eq(a, b))
    v.ensure("configurations carried onto each other by a motion are equal", e)


@spec("C22", CONF + ".__hash__", CONF + ".makehash")
def hashes(v):
    (a, D, P, _), (b, E, Q, _) = two(v)
    x = z3.Const("hx", U)
    v.assume(z3.ForAll([x], D(x) == E(x), patterns=[D(x)]))
    v.cover()
    h, k = v.it.int_term(v.it.py_hash(a)), v.it.int_term(v.it.py_hash(b))
    v.ensure("configurations with the same names hash alike", h == k)
