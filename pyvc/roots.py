"""Help with ground problems that mix square roots, uninterpreted functions and elements of collections: equalities
between elements that follow from the rest, and valid lemmas on the terms s with s * s == e."""
import z3
from .inst import ground_terms

ROUND = 500


def nonlinear(f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_mul(t) and sum(not z3.is_rational_value(c) for c in t.children()) > 1 or z3.is_div(t):
            return True
        todo.extend(t.children())
    return False


def elements(fs):
    return [t for v in ground_terms(fs).values() for t in v if t.sort().kind() == z3.Z3_UNINTERPRETED_SORT]


def zero(e):
    z = z3.simplify(e, som=True)
    return z3.is_rational_value(z) and z.as_fraction() == 0


def equal_elements(fs):
    """Applications of sort U that certainly equal a constant (decided without the nonlinear part)."""
    us = elements(fs)
    apps, cs = [t for t in us if t.num_args()], [t for t in us if not t.num_args()]
    s = z3.Solver()
    s.set("timeout", ROUND)
    s.add(*[f for f in fs if not nonlinear(f)])
    sub = []
    for a in apps[:20]:
        for c in cs[:20]:
            if s.check(a != c) == z3.unsat:
                sub.append((a, c))
                break
    return sub


def squares(fs):
    """The terms s, by the e for which s * s == e occurs."""
    seen, todo, out = set(), list(fs), []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
        if z3.is_eq(t) and t.arg(0).sort() == z3.RealSort():
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if z3.is_mul(x) and x.num_args() == 2 and x.arg(0).eq(x.arg(1)):
                    for e, v in out:
                        if zero(e - y):
                            v[x.arg(0).get_id()] = x.arg(0)
                            break
                    else:
                        out.append((y, {x.arg(0).get_id(): x.arg(0)}))
    return [(e, list(v.values())) for e, v in out]


def lemmas(fs):
    out = []
    sq = squares(fs)
    if not sq or len(sq) > 30:
        return None
    for e, v in sq:
        for i, a in enumerate(v):
            out += [z3.Implies(a * a == 0, a == 0), z3.Implies(z3.And(a * a == 1, a >= 0), a == 1)]
            for b in v[:i]:
                out.append(z3.Implies(z3.And(a >= 0, b >= 0, a * a == b * b), a == b))
        if z3.is_rational_value(z3.simplify(e)):
            continue
        # e is no negative number, whatever its parts
        apps = [t for t in ground_terms([e == 0]).get("Real", []) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()]
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", ROUND)
        s.add(z3.substitute(z3.simplify(e), *[(a, z3.FreshConst(a.sort())) for a in apps]) < 0)
        if s.check() == z3.unsat:
            out.append(e >= 0)
        us = elements([e == 0])
        for i, a in enumerate(us):
            for b in us[:i]:
                z = z3.simplify(z3.substitute(e, (b, a)), som=True)
                if z3.is_rational_value(z):
                    out.append(z3.Implies(a == b, e == z))
    return out


def prepare(fs):
    """Problems that are satisfiable when the given one is; None when there is nothing to gain."""
    sub = equal_elements(fs)
    gs = [z3.simplify(z3.substitute(f, *sub)) for f in fs] if sub else [z3.simplify(f) for f in fs]
    ls = lemmas(gs)
    if ls is None:
        return []
    gs = gs + ls + [a == c for a, c in sub]
    return [gs, [z3.simplify(f, som=True) for f in gs]]
