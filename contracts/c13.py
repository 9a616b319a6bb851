"""C13: matrix algebra.  Entries are arbitrary reals.  Products, transposes, identities and inverses are decided for every
shape (the `any_shape` specifications: rows and columns by position, sums as finite sums with the laws proved in
`laws_of_sums`), and again shape by shape up to 3x3, which also decides aliasing."""
import z3
from pyvc.verify import spec, R
from pyvc.values import *
from pyvc.positional import PRep

M = "solver.geometry:Matrix."
SHAPES = [(r, c) for r in (1, 2, 3) for c in (1, 2, 3)]


def mat(v, name, r, c):
    e = [[v.real("%s%d%d" % (name, i, j)) for j in range(c)] for i in range(r)]
    m = v.new("solver.geometry:Matrix", v.list([v.list(row) for row in e]))
    return m, e


def vecmat(v, name):
    p = v.vec(name)
    return p, [[v.inputs[name + ".x"]], [v.inputs[name + ".y"]]]


def entries(v, m):
    return [v.items(row) for row in v.items(v.attr(m, "elements"))]


def same(v, name, got, want):
    v.ensure(name + ": shape", len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)))
    if len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)):
        for i, (a, b) in enumerate(zip(got, want)):
            for j, (x, y) in enumerate(zip(a, b)):
                v.ensure("%s: entry (%d, %d)" % (name, i, j), v.r(x) == v.r(y))


def untouched(v, name, m, e):
    same(v, name + " leaves its operands unchanged", entries(v, m), e)


def is_matrix(v, name, o):
    v.ensure(name + " returns", o.ok)
    if not o.ok:
        return False
    good = isinstance(o.value, Obj) and o.value.cls.issub(v.it.get_class("solver.geometry:Matrix"))
    v.ensure(name + " gives a matrix", good)
    return good


def independent(v, name, r, ops):
    """Overwriting the result does not show in the operands."""
    rows = v.items(v.attr(r, "elements"))
    for i, row in enumerate(rows):
        for j in range(len(v.items(row))):
            v.it.set_item(row, j, z3.Const("w", R))
    for m, e in ops:
        untouched(v, name + " shares no state and", m, e)


@spec("C13", M + "__init__", M + "elements", M + "num_rows", M + "num_cols", M + "num_elements")
def construct(v):
    for r, c in SHAPES:
        m, e = mat(v, "a", r, c)
        same(v, "a %dx%d matrix has the entries it was built from" % (r, c), entries(v, m), e)
        for name, want in (("num_rows", r), ("num_cols", c), ("num_elements", r * c)):
            o = v.call(Builtin("attr", lambda: v.attr(m, name)))
            v.ensure("%s of a %dx%d matrix" % (name, r, c), o.ok and v.it.eq(o.value, want))


def products(r, k):
    @spec("C13", M + "__mul__", name="product_%dx%d" % (r, k))
    def product(v):
        a, ea = mat(v, "a", r, k)
        for k2, c in SHAPES:
            b, eb = mat(v, "b", k2, c)
            o = v.op("*", a, b)
            name = "product of %dx%d and %dx%d" % (r, k, k2, c)
            if k != k2:
                v.ensure(name + " is refused", not o.ok)
            elif is_matrix(v, name, o):
                want = [[z3.Sum([ea[i][t] * eb[t][j] for t in range(k)]) for j in range(c)] for i in range(r)]
                same(v, name, entries(v, o.value), want)
            untouched(v, name, a, ea)
            untouched(v, name, b, eb)
            if o.ok and k == k2:
                independent(v, name, o.value, [(a, ea), (b, eb)])
        if k == 2:
            p, ep = vecmat(v, "p")
            o = v.op("*", a, p)
            name = "product of %dx2 and a vector" % r
            if is_matrix(v, name, o):
                same(v, name, entries(v, o.value), [[ea[i][0] * ep[0][0] + ea[i][1] * ep[1][0]] for i in range(r)])
            untouched(v, name, p, ep)


for _r, _k in SHAPES:
    products(_r, _k)


@spec("C13", M + "__mul__")
def product_with_itself(v):
    for r, c in SHAPES:
        a, ea = mat(v, "a", r, c)
        o = v.op("*", a, a)
        name = "product of a %dx%d matrix and itself" % (r, c)
        if r != c:
            v.ensure(name + " is refused", not o.ok)
        elif is_matrix(v, name, o):
            same(v, name, entries(v, o.value), [[z3.Sum([ea[i][t] * ea[t][j] for t in range(r)]) for j in range(r)]
                                                for i in range(r)])
            independent(v, name, o.value, [(a, ea)])
        untouched(v, name, a, ea)


@spec("C13", M + "transpose")
def transpose(v):
    for r, c in SHAPES:
        a, ea = mat(v, "a", r, c)
        o = v.meth(a, "transpose")
        name = "transpose of %dx%d" % (r, c)
        if is_matrix(v, name, o):
            same(v, name, entries(v, o.value), [[ea[i][j] for i in range(r)] for j in range(c)])
            untouched(v, name, a, ea)
            independent(v, name, o.value, [(a, ea)])
    p, ep = vecmat(v, "p")
    o = v.meth(p, "transpose")
    if is_matrix(v, "transpose of a vector", o):
        same(v, "transpose of a vector", entries(v, o.value), [[ep[0][0], ep[1][0]]])
        untouched(v, "transpose of a vector", p, ep)


@spec("C13", M + "identity")
def identity_neutral(v):
    for n in (1, 2, 3):
        o = v.cm("solver.geometry:Matrix", "identity", n)
        if not is_matrix(v, "identity(%d)" % n, o):
            continue
        same(v, "identity(%d)" % n, entries(v, o.value),
             [[z3.RealVal(int(i == j)) for i in range(n)] for j in range(n)])
        for c in (1, 2, 3):
            a, ea = mat(v, "a", n, c)
            q = v.op("*", o.value, a)
            if is_matrix(v, "identity times matrix", q):
                same(v, "identity(%d) is neutral on the left" % n, entries(v, q.value), ea)
            b, eb = mat(v, "b", c, n)
            q = v.op("*", b, o.value)
            if is_matrix(v, "matrix times identity", q):
                same(v, "identity(%d) is neutral on the right" % n, entries(v, q.value), eb)


def det(e):
    if len(e) == 1:
        return e[0][0]
    if len(e) == 2:
        return e[0][0] * e[1][1] - e[0][1] * e[1][0]
    return sum((-1) ** j * e[0][j] * det([r[:j] + r[j + 1:] for r in e[1:]]) for j in range(3))


def inverses(n):
    @spec("C13", M + "inverse", M + "solve", name="inverse_%d" % n)
    def inverse(v):
        a, ea = mat(v, "a", n, n)
        v.assume(det(ea) != 0)
        v.cover()
        o = v.meth(a, "inverse")
        if not is_matrix(v, "inverse %dx%d" % (n, n), o):
            return
        untouched(v, "inverse", a, ea)
        e = entries(v, o.value)
        v.ensure("inverse: shape", len(e) == n and all(len(x) == n for x in e))
        for i in range(n):
            for j in range(n):
                v.ensure("matrix times inverse is the identity (%d, %d)" % (i, j),
                         z3.Sum([ea[i][k] * v.r(e[k][j]) for k in range(n)]) == int(i == j))
                v.ensure("inverse times matrix is the identity (%d, %d)" % (i, j),
                         z3.Sum([v.r(e[i][k]) * ea[k][j] for k in range(n)]) == int(i == j))
        independent(v, "inverse", o.value, [(a, ea)])


for _n in (1, 2, 3):
    inverses(_n)


@spec("C13", M + "inverse")
def no_inverse(v):
    for r, c in SHAPES:
        if r != c:
            a, ea = mat(v, "a", r, c)
            o = v.meth(a, "inverse")
            v.ensure("a %dx%d matrix has no inverse" % (r, c), not o.ok)
            untouched(v, "refused inverse", a, ea)


@spec("C13", M + "round")
def rounding(v):
    for r, c in SHAPES:
        for args, n in (((), 4), ((2,), 2)):
            a, ea = mat(v, "a", r, c)
            o = v.meth(a, "round", *args)
            v.ensure("round returns", o.ok)
            f = z3.Function("round_%s" % n, R, R)
            same(v, "round(%s) rounds every entry in place" % (args or ""), entries(v, a),
                 [[f(x) for x in row] for row in ea])


# ------------------------------------------------------------ any shape
class Gen(object):
    """A matrix of any shape, rows by position."""

    def __init__(self, v, name, r, c):
        self.v, self.r, self.c = v, r, c
        self.f = f = z3.Function(name, z3.IntSort(), z3.IntSort(), R)
        t = v.it.int_term
        row = lambda i: PRep(c, lambda j: f(t(i), t(j)), (name, "row"))
        self.rows = v.it.plist(r, row, name, own=True)
        self.rep = self.rows.rep
        self.m = v.new("solver.geometry:Matrix", self.rows)
        self.name = name

    def untouched(self, what):
        v, what = self.v, what + " leaves its operand %s unchanged" % self.name
        e = v.attr(self.m, "elements")
        if e is self.rows and e.rep is self.rep:
            v.ensure(what, True)
            return
        self.holds(what, self.f)

    def holds(self, what, f):
        """The matrix is what it was, with entries f(i, j)."""
        v = self.v
        i, j = v.ctx.const("i", z3.IntSort()), v.ctx.const("j", z3.IntSort())
        rows = v.attr(self.m, "elements")
        v.ensure(what + ": number of rows", isinstance(rows, ListV) and v.it.eq(v.it.length(rows), self.r))
        v.assume(z3.And(i >= 0, i < self.r, j >= 0, j < self.c))
        row = v.it.get_item(rows, i)
        v.ensure(what + ": number of columns", v.it.eq(v.it.length(row), self.c))
        v.ensure(what + ": entries", v.r(v.it.get_item(row, j)) == f(i, j))


def sizes(v, *names):
    return [v.int(n, lo=1) for n in names]


def positions(v, r, c):
    i, j = z3.Ints("i j")
    v.assume(z3.And(i >= 0, i < r, j >= 0, j < c))
    return i, j


def entry(v, what, m, r, c, i, j):
    """Entry (i, j) of a result that must be r x c, made of lists of its own."""
    rows = v.attr(m, "elements")
    good = isinstance(rows, ListV)
    v.ensure(what + ": rows are a list", good)
    v.ensure(what + ": number of rows", v.it.eq(v.it.length(rows), r))
    row = v.it.get_item(rows, i)
    v.ensure(what + ": a row is a list", isinstance(row, ListV))
    v.ensure(what + ": number of columns", v.it.eq(v.it.length(row), c))
    v.ensure(what + " shares no rows with its operands", getattr(rows.rep, "origin", None) is None and
             getattr(row.rep, "origin", None) is None)
    return v.it.get_item(row, j)


def equal_sums(v, what, x, want, points=()):
    x, want = v.r(x), v.r(want)
    v.it.sum_facts([x, want], points)
    v.ensure(what, x == want)


def total(v, n, f):
    t = z3.Const(v.ctx.fresh_name("t"), z3.IntSort())
    return v.it.pos_sum_term(n, t, f(t))


@spec("C13", M + "__init__", M + "elements", M + "num_rows", M + "num_cols", M + "num_elements")
def construct_any_shape(v):
    v.ctx.positional = True
    r, c = sizes(v, "r", "c")
    i, j = positions(v, r, c)
    a = Gen(v, "a", r, c)
    v.ensure("a matrix has the rows it was built from", v.attr(a.m, "elements") is a.rows)
    for name, want in (("num_rows", r), ("num_cols", c), ("num_elements", r * c)):
        o = v.call(Builtin("attr", lambda: v.attr(a.m, name)))
        v.ensure("%s of a matrix of any shape" % name, o.ok and v.it.eq(o.value, want))
    a.untouched("reading its size")


@spec("C13", M + "__mul__")
def product_any_shape(v):
    v.ctx.positional = True
    r, k, k2, c = sizes(v, "r", "k", "k2", "c")
    a, b = Gen(v, "a", r, k), Gen(v, "b", k2, c)
    v.cover()
    o = v.op("*", a.m, b.m)
    a.untouched("a product")
    b.untouched("a product")
    if not o.ok:
        v.ensure("a product is refused only for incompatible sizes", k != k2)
        return
    v.ensure("incompatible sizes are refused", k == k2)
    if is_matrix(v, "product", o):
        i, j = positions(v, r, c)
        x = entry(v, "product", o.value, r, c, i, j)
        equal_sums(v, "product: entry (i, j) is the sum over k of a(i,k) b(k,j)", x,
                   total(v, k, lambda t: a.f(i, t) * b.f(t, j)))


@spec("C13", M + "__mul__")
def square_any_size(v):
    v.ctx.positional = True
    n, = sizes(v, "n")
    a = Gen(v, "a", n, n)
    o = v.op("*", a.m, a.m)
    a.untouched("a product with itself")
    if is_matrix(v, "product with itself", o):
        i, j = positions(v, n, n)
        x = entry(v, "product with itself", o.value, n, n, i, j)
        equal_sums(v, "product with itself: entry (i, j)", x, total(v, n, lambda t: a.f(i, t) * a.f(t, j)))


@spec("C13", M + "transpose")
def transpose_any_shape(v):
    v.ctx.positional = True
    r, c = sizes(v, "r", "c")
    a = Gen(v, "a", r, c)
    o = v.meth(a.m, "transpose")
    a.untouched("transposing")
    if is_matrix(v, "transpose", o):
        i, j = positions(v, c, r)
        x = entry(v, "transpose", o.value, c, r, i, j)
        v.ensure("transpose: entry (i, j) is entry (j, i)", v.r(x) == a.f(j, i))


@spec("C13", M + "identity", M + "__mul__")
def identity_any_size(v):
    v.ctx.positional = True
    n, c = sizes(v, "n", "c")
    o = v.cm("solver.geometry:Matrix", "identity", n)
    if not is_matrix(v, "identity", o):
        return
    i, j = z3.Ints("i j")
    v.assume(z3.And(i >= 0, i < n, j >= 0))
    case = v.split(z3.Bool("left"))
    if case:
        v.assume(j < n)
        x = entry(v, "identity", o.value, n, n, i, j)
        v.ensure("identity: entry (i, j) is 1 on the diagonal and 0 off it", v.r(x) == z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))
        b = Gen(v, "b", c, n)
        i2 = z3.Int("i2")
        v.assume(z3.And(i2 >= 0, i2 < c))
        q = v.op("*", b.m, o.value)
        if is_matrix(v, "matrix times identity", q):
            y = entry(v, "matrix times identity", q.value, c, n, i2, j)
            equal_sums(v, "the identity is neutral on the right", y, b.f(i2, j), [i2, j])
    else:
        v.assume(j < c)
        a = Gen(v, "a", n, c)
        q = v.op("*", o.value, a.m)
        if is_matrix(v, "identity times matrix", q):
            y = entry(v, "identity times matrix", q.value, n, c, i, j)
            equal_sums(v, "the identity is neutral on the left", y, a.f(i, j), [i, j])


@spec("C13", M + "inverse", M + "solve", M + "identity")
def inverse_any_size(v):
    v.ctx.positional = True
    r, c = sizes(v, "r", "c")
    a = Gen(v, "a", r, c)
    v.ctx.invertible.add("a")
    o = v.meth(a.m, "inverse")
    a.untouched("inverting")
    if not o.ok:
        v.ensure("only a matrix that is not square has no inverse", r != c)
        return
    v.ensure("a matrix that is not square has no inverse", r == c)
    if is_matrix(v, "inverse", o):
        i, j = positions(v, r, r)
        w = z3.Int("w")
        v.assume(z3.And(w >= 0, w < r))
        entry(v, "inverse", o.value, r, r, w, j)
        rows = v.attr(o.value, "elements")
        want = total(v, r, lambda t: v.it.num_op("*", a.f(i, t), rows.rep.at(t).at(j)))
        known = list(v.it.solve_facts(i, j))
        v.it.sum_facts([want] + known)
        v.ensure("matrix times inverse is the identity", want == z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))


@spec("C13", M + "round")
def rounding_any_shape(v):
    v.ctx.positional = True
    r, c = sizes(v, "r", "c")
    for args, n in (((), 4), ((2,), 2)):
        a = Gen(v, "a%d" % n, r, c)
        o = v.meth(a.m, "round", *args)
        v.ensure("round returns", o.ok)
        if not o.ok:
            return
        f = z3.Function("round_%s" % n, R, R)
        a.holds("round(%s) rounds every entry" % (args or ""), lambda i, j: f(a.f(i, j)))


@spec("C13")
def laws_of_sums(v):
    """The laws of finite sums used above, by induction over the number of summands (P(m): sum of the first m)."""
    P, Q, f, g = [z3.Function(n, z3.IntSort(), R) for n in "PQfg"]
    m, n, p = z3.Ints("m n p")
    step = lambda P, f: P(m + 1) == P(m) + f(m)
    v.assume(z3.And(P(0) == 0, Q(0) == 0, step(P, f), step(Q, g), m >= 0))
    v.ensure("equal summands, no summand", P(0) == Q(0))
    v.ensure("equal summands, one more", z3.Implies(z3.And(P(m) == Q(m), f(m) == g(m)), P(m + 1) == Q(m + 1)))
    one = lambda m: P(m) == z3.If(m > p, f(p), z3.RealVal(0))
    v.ensure("one summand that is not zero, no summand", z3.Implies(p >= 0, one(z3.IntVal(0))))
    v.ensure("one summand that is not zero, one more", z3.Implies(z3.And(p >= 0, one(m), z3.Or(m == p, f(m) == 0)), one(m + 1)))
