"""Instantiation of universally quantified hypotheses with the ground terms of a problem."""
import itertools
import z3


def nnf(fs):
    g = z3.Goal()
    for f in fs:
        g.add(f)
    r = z3.Then(z3.Tactic("simplify"), z3.Tactic("nnf"))(g)
    return [r[0][i] for i in range(len(r[0]))]


def ground_terms(fs):
    """Ground subterms by sort (no bound variables), skipping Bool."""
    out = {}
    seen = {}

    def go(t):
        """True when t is ground."""
        i = t.get_id()
        if i in seen:
            return seen[i]
        if z3.is_var(t):
            seen[i] = False
            return False
        if z3.is_quantifier(t):
            go(t.body())
            seen[i] = False
            return False
        g = True
        for c in t.children():
            g = go(c) and g
        seen[i] = g
        if g and t.sort().kind() != z3.Z3_BOOL_SORT:
            out.setdefault(t.sort().name(), {})[t.get_id()] = t
        return g
    for f in fs:
        go(f)
    return {k: list(v.values()) for k, v in out.items()}


def ground_instances(fs, rounds=2, limit=6000):
    fs = nnf(fs)
    ground = []
    for rnd in range(rounds):
        terms = ground_terms(fs)
        done = []
        total = 0

        def expand(f):
            nonlocal total
            if z3.is_quantifier(f) and f.is_forall():
                n = f.num_vars()
                doms = [terms.get(f.var_sort(i).name(), []) for i in range(n)]
                # small integer universes only
                doms = [d[:40] for d in doms]
                size = 1
                for d in doms:
                    size *= len(d)
                if size > 3000 or total + size > limit:
                    doms = [d[:8] for d in doms]
                insts = []
                for combo in itertools.product(*doms):
                    total += 1
                    if total > limit:
                        break
                    insts.append(z3.substitute_vars(f.body(), *reversed(combo)))
                return z3.And(*[expand(i) for i in insts]) if insts else z3.BoolVal(True)
            if z3.is_quantifier(f):
                return f
            if z3.is_and(f):
                return z3.And(*[expand(c) for c in f.children()])
            if z3.is_or(f):
                return z3.Or(*[expand(c) for c in f.children()])
            return f
        ground = [expand(f) for f in fs]
        if rnd < rounds - 1:
            fs = fs + nnf(ground)
    return ground


def goal_instances(hyps, goal, rounds=2, limit=400, wide=False):
    """Ground consequences of the hypotheses: quantifiers instantiated with the terms of the goal only
    (wide: with the most recent constants of the path as well)."""
    import itertools
    neg = nnf([z3.Not(goal)])
    fs = nnf(hyps)
    base = ground_terms(neg)
    pool = {k: [t for t in v if z3.is_app(t) and (t.sort().kind() == z3.Z3_UNINTERPRETED_SORT)] for k, v in base.items()}
    pool = {k: v[:6] for k, v in pool.items() if v}
    if wide:
        for k, ts in ground_terms(fs).items():
            more = [t for t in ts if t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and z3.is_const(t)]
            more = [t for t in more if not str(t).startswith(("cw!", "cd!", "fd!", "fw!"))]
            old = pool.get(k, [])
            pool[k] = (old + [t for t in reversed(more) if all(t.get_id() != o.get_id() for o in old)])[:8]
    todo = neg + fs
    ground = []
    for rnd in range(rounds):
        total = 0

        def expand(f):
            nonlocal total
            if z3.is_quantifier(f) and f.is_forall():
                doms = [pool.get(f.var_sort(i).name(), []) for i in range(f.num_vars())]
                out = []
                for combo in itertools.product(*doms):
                    total += 1
                    if total > limit:
                        break
                    out.append(expand(z3.substitute_vars(f.body(), *reversed(combo))))
                return z3.And(*out) if out else z3.BoolVal(True)
            if z3.is_quantifier(f):
                return f if not f.is_exists() else z3.BoolVal(True)
            if z3.is_and(f):
                return z3.And(*[expand(c) for c in f.children()])
            if z3.is_or(f):
                k = [expand(c) for c in f.children()]
                return z3.BoolVal(True) if any(z3.is_true(c) for c in k) else z3.Or(*k)
            return f
        ground = [g for g in (expand(f) for f in todo) if not z3.is_true(g)]
        # integer positions of the goal's elements, for the next round
        seen = ground_terms(ground)
        ints = [t for t in seen.get("Int", []) if z3.is_app(t) and t.num_args() and
                t.decl().kind() == z3.Z3_OP_UNINTERPRETED][:6]
        pool["Int"] = ints
    return ground
