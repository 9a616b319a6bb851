from common import *
from solver.geometry import Scalar, Vector
BOUND = "random pairs of reals and tolerances, values mined from the source included"


def cases(S):
    V = [0, 1, -1, 1.0, 2.5, 1e-8, 2e-8, 5e-9, -5e-9, 1.00001, 1.00002, 1.000005, 1e6, 1e6 + 5, 1e6 + 20]
    for a in V:
        for b in V:
            yield {"a": a, "b": b, "kw": {}}
    for a in (0, 1, 1.5, 2, -3):
        for b in (0, 1, 2, -3.1):
            for rel in (0, 0.0, 0.1, 1e-5):
                for ab in (0, 0.0, 0.5, 1e-8):
                    yield {"a": a, "b": b, "kw": {"rel_tol": rel, "abs_tol": ab}}
                    yield {"a": a, "b": b, "kw": {"rel_tol": rel}}
                    yield {"a": a, "b": b, "kw": {"abs_tol": ab}}
    while True:
        a = S.number()
        k = S.rng.random()
        b = S.number() if k < 0.4 else a + S.rng.uniform(-3, 3) * (1e-8 + 1e-5 * abs(a)) if k < 0.8 else a * (1 + S.tiny())
        kw = {}
        if S.rng.random() < 0.4:
            kw["rel_tol"] = S.rng.choice([0, 0.0, abs(S.number()), 0.1, 1e-3])
        if S.rng.random() < 0.4:
            kw["abs_tol"] = S.rng.choice([0, 0.0, abs(S.number()), 0.1, 1e-3])
        yield {"a": a, "b": b, "kw": kw}


def teq(a, b, rel, ab):
    """None when too near the boundary to call."""
    lhs, rhs = abs(a - b), ab + rel * abs(b)
    if abs(lhs - rhs) <= 1e-12 * max(abs(a), abs(b), lhs, rhs) and not (lhs == 0):
        return None
    return lhs <= rhs


def one(a, b, kw):
    rel = kw.get("rel_tol", 1e-5)
    ab = kw.get("abs_tol", 1e-8)
    e = teq(a, b, rel, ab)
    if e is None:
        return
    want = {"tol_eq": e, "tol_lt": a < b and not e, "tol_gt": a > b and not e, "tol_le": a < b or e,
            "tol_ge": a > b or e}
    for n in want:
        got = getattr(Scalar, n)(a, b, **kw)
        need(bool(got) == want[n], "Scalar.%s(%r, %r, %r) is %r", n, a, b, kw, got)
        if len(kw) == 2:
            got = getattr(Scalar, n)(a, b, rel, ab)
            need(bool(got) == want[n], "Scalar.%s(%r, %r, %r, %r) is %r", n, a, b, rel, ab, got)
    z = teq(a, 0, rel, ab)
    if z is not None:
        got = Scalar.tol_zero(a, **kw)
        need(bool(got) == z, "Scalar.tol_zero(%r, %r) is %r", a, kw, got)
    f = teq(b, a, rel, ab)
    if f is not None:
        got = Vector(a, b).tol_eq(Vector(b, a), **kw)
        need(bool(got) == (e and f), "Vector(%r, %r).tol_eq(Vector(%r, %r)) is %r", a, b, b, a, got)
        got = Vector(a, 1.0).tol_eq(Vector(b, 1.0), **kw)
        need(bool(got) == e, "Vector(%r, 1).tol_eq(Vector(%r, 1)) is %r", a, b, got)
        got = Vector(1.0, a).tol_eq(Vector(1.0, b), **kw)
        need(bool(got) == e, "Vector(1, %r).tol_eq(Vector(1, %r)) is %r", a, b, got)


def check(inp):
    one(inp["a"], inp["b"], inp["kw"])
