from common import *
from solver.geometry import Matrix, Vector
from fractions import Fraction
BOUND = "matrices up to 6x6 with random entries, an identity of 300 rows, a product over 300 columns"


def cases(S):
    r = S.rng
    for n in range(1, 9):
        yield {"a": [[float(i * n + j) for j in range(n)] for i in range(n)], "b": [[1.0] * n] * n, "n": n}
    yield {"a": [[1.0, 2.0]], "b": [[1.0], [0.5]], "n": 300}
    yield {"a": [[float(i % 7) for i in range(300)]], "b": [[float(i % 5)] for i in range(300)], "n": 1}
    while True:
        n, k, m = [r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]) for _ in range(3)]
        if r.random() < 0.15:
            m = k + r.choice([0, 1])
        k2 = k if r.random() < 0.8 else r.choice([1, 2, 3, 4])
        e = (lambda: float(r.randint(-4, 4))) if r.random() < 0.7 else S.number
        yield {"a": [[e() for _ in range(k)] for _ in range(n)], "b": [[e() for _ in range(m)] for _ in range(k2)],
               "n": r.randint(1, 8)}


def rows(m):
    return [list(r) for r in m.elements]


def eq(name, got, want, tol=1e-9):
    need(len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)), "%s: shape %r", name, got)
    for i, (a, b) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(a, b)):
            need(close(x, y, tol), "%s: entry (%d, %d) is %r, not %r", name, i, j, x, y)


def det(a):
    a = [[Fraction(x) for x in r] for r in a]
    n, d = len(a), Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i]), None)
        if p is None:
            return Fraction(0)
        if p != i:
            a[i], a[p] = a[p], a[i]
            d = -d
        d *= a[i][i]
        for k in range(i + 1, n):
            f = a[k][i] / a[i][i]
            a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return d


def prod(a, b):
    return [[float(sum(Fraction(a[i][t]) * Fraction(b[t][j]) for t in range(len(b)))) for j in range(len(b[0]))]
            for i in range(len(a))]


def check(inp):
    ea, eb = inp["a"], inp["b"]
    cp = lambda e: [list(r) for r in e]
    A, B = Matrix(cp(ea)), Matrix(cp(eb))
    mag = max(abs(x) for r in ea + eb for x in r) + 1

    def unchanged(name):
        need(rows(A) == ea and rows(B) == eb, "%s changed an operand", name)
    need(A.num_rows == len(ea) and A.num_cols == len(ea[0]) and A.num_elements == len(ea) * len(ea[0]), "dimensions")
    try:
        P = A * B
        ok = True
    except Exception as e:
        ok = False
    unchanged("product")
    need(ok == (len(ea[0]) == len(eb)), "product of %dx%d and %dx%d %s", len(ea), len(ea[0]), len(eb), len(eb[0]),
         "accepted" if ok else "refused")
    if ok:
        need(isinstance(P, Matrix), "product is not a matrix")
        w = prod(ea, eb)
        eq("product of %r and %r" % (ea, eb), [[x / mag / mag for x in r] for r in rows(P)],
           [[x / mag / mag for x in r] for r in w])
        for r in P.elements:
            for j in range(len(r)):
                r[j] = 99.5
        unchanged("overwriting a product")
    try:
        Q = A * A
        ok = True
    except Exception as e:
        ok = False
    unchanged("product with itself")
    need(ok == (len(ea) == len(ea[0])), "product of a %dx%d matrix and itself %s", len(ea), len(ea[0]),
         "accepted" if ok else "refused")
    if ok:
        eq("product of %r and itself" % ea, [[x / mag / mag for x in r] for r in rows(Q)],
           [[x / mag / mag for x in r] for r in prod(ea, ea)])
    T = A.transpose()
    unchanged("transpose")
    eq("transpose of %r" % ea, rows(T), [[r[j] for r in ea] for j in range(len(ea[0]))], 0)
    for r in T.elements:
        for j in range(len(r)):
            r[j] = 99.5
    unchanged("overwriting a transpose")
    n = inp["n"]
    eq("identity(%d)" % n, rows(Matrix.identity(n)), [[float(i == j) for i in range(n)] for j in range(n)], 0)
    I = Matrix.identity(len(ea))
    eq("identity times matrix", rows(I * A), ea, 0)
    eq("matrix times identity", rows(A * Matrix.identity(len(ea[0]))), ea, 0)
    if len(ea) != len(ea[0]):
        try:
            A.inverse()
            ok = True
        except Exception:
            ok = False
        need(not ok, "a %dx%d matrix has an inverse", len(ea), len(ea[0]))
        unchanged("refused inverse")
    else:
        d = det(ea)
        s = max(abs(x) for r in ea for x in r) or 1
        if abs(float(d)) > 1e-3 * s ** len(ea):
            J = A.inverse()
            unchanged("inverse")
            need(isinstance(J, Matrix), "inverse is not a matrix")
            want = [[float(i == j) for i in range(len(ea))] for j in range(len(ea))]
            eq("matrix times inverse, %r" % ea, prod(ea, rows(J)), want, 1e-6)
            eq("inverse times matrix, %r" % ea, prod(rows(J), ea), want, 1e-6)
    if len(ea) == 2:
        p = Vector(1.5, -2.25)
        if len(ea[0]) == 2:
            eq("matrix times vector", rows(A * p), [[r[0] * 1.5 - r[1] * 2.25] for r in ea])
        t = p.transpose()
        eq("transpose of a vector", rows(t), [[1.5, -2.25]], 0)
        need(rows(p) == [[1.5], [-2.25]], "transpose changed the vector")
    for prec in (None, 2):
        C = Matrix(cp(ea))
        C.round() if prec is None else C.round(prec)
        eq("round", rows(C), [[round(x, 4 if prec is None else prec) for x in r] for r in ea], 0)
