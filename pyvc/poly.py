"""Equality goals over the reals by polynomial normal form modulo the square-root definitions."""
import z3


def to_sympy(t, env, sp):
    if z3.is_rational_value(t) or z3.is_int_value(t):
        if z3.is_int_value(t):
            return sp.Integer(t.as_long())
        return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_const(t):
        n = t.decl().name()
        if n not in env:
            env[n] = sp.Symbol("v%d" % len(env))
        return env[n]
    ch = [to_sympy(c, env, sp) for c in t.children()]
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return sp.Add(*ch)
    if k == z3.Z3_OP_MUL:
        return sp.Mul(*ch)
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    if k == z3.Z3_OP_DIV:
        return ch[0] / ch[1]
    if k == z3.Z3_OP_TO_REAL:
        return ch[0]
    if k == z3.Z3_OP_POWER:
        return ch[0] ** ch[1]
    raise ValueError("term")


def conj(fs):
    for f in fs:
        if z3.is_and(f):
            yield from conj(f.children())
        else:
            yield f


def prove_poly(hyps, goal):
    """True when the goal is a conjunction of real equalities that hold by ring normal form, using the
    equalities x*x == t (or x*x + y*y == t) of the hypotheses as rewrite rules.  Divisors are assumed
    nonzero only when a hypothesis says so."""
    import sympy as sp
    goals = list(conj([goal]))
    if not all(z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() for g in goals):
        return False
    env = {}
    rules = []
    nonzero = []
    true_pre = list(conj(hyps))
    s = z3.Solver()
    s.set("timeout", 300)
    for h in true_pre:
        s.add(h)

    def holds(f):
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        return r == z3.unsat
    try:
        eqs = []
        for h in true_pre:
            hs = [h]
            if z3.is_implies(h) and holds(h.arg(0)):
                hs = list(conj([h.arg(1)]))
            for q in hs:
                if z3.is_eq(q) and q.arg(0).sort() == z3.RealSort():
                    eqs.append(q)
        polys = []
        for q in eqs:
            l = sp.together(to_sympy(q.arg(0), env, sp) - to_sympy(q.arg(1), env, sp))
            num, den = sp.fraction(l)
            polys.append(sp.expand(num))
        polys = [p for p in polys if p != 0]
        for g in goals:
            e = sp.together(to_sympy(g.arg(0), env, sp) - to_sympy(g.arg(1), env, sp))
            num, den = sp.fraction(e)
            num = sp.expand(num)
            if num == 0:
                ok = True
            else:
                ok = reduces(sp, num, polys)
            if not ok:
                return False
            if not divisors_ok(g, holds):
                return False
        return True
    except (ValueError, RecursionError):
        return False


def divisors_ok(g, holds):
    stack, seen = [g], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_div(x):
            d = x.children()[1]
            if not z3.is_rational_value(d) and not holds(d != 0):
                return False
        stack.extend(x.children())
    return True


def reduces(sp, num, polys):
    """num is in the ideal of the relevant polys, by repeated monic square rewriting."""
    rules = []
    for p in polys:
        for v in sorted(p.free_symbols, key=str, reverse=True):
            P = sp.Poly(p, v)
            if P.degree() == 2 and P.coeff_monomial(v) == 0 and P.LC().is_number:
                rules.append((v, sp.expand(-(p - P.LC() * v ** 2) / P.LC())))
                break
    e = num
    for _ in range(40):
        if e == 0:
            return True
        before = e
        for v, t in rules:
            if not e.has(v):
                continue
            P = sp.Poly(e, v)
            if P.degree() < 2:
                continue
            e = sp.expand(sum(c * (v if m % 2 else 1) * t ** (m // 2) for (m,), c in P.terms()))
        if e == before:
            break
    return e == 0
