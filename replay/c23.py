from common import *
from solver.geometric.constraint import *
import logging
BOUND = "histories of up to 14 constraint-graph operations over up to 7 variables and 6 constraints"


class C(Constraint):
    def __init__(self, n, vs):
        self.n, self._variables = n, list(vs)

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return "C%d" % self.n


def make(spec, i):
    k, vs = spec[0], [hv(x) for x in spec[1]]
    if k == "plus":
        return PlusConstraint(*vs)
    if k == "fn":
        return FunctionConstraint(lambda *a: True, vs)
    if k == "own":
        return C(i, vs)
    return {"ncw": NotClockwiseConstraint, "nccw": NotCounterClockwiseConstraint, "nob": NotObtuseConstraint, "nac": NotAcuteConstraint}[k](*vs)


def cases(S):
    r = S.rng
    while True:
        pool = name_pool(S, r.choice([2, 3, 4, 5, 7]))
        specs = []
        for _ in range(r.randint(1, 6)):
            k = r.choice(["plus", "fn", "own", "own", "fn", "ncw", "nccw", "nob", "nac"])
            n = r.choice([0, 1, 1, 2, 2, 3, 4]) if k in ("fn", "own") else 3
            specs.append([k, [r.choice(pool) for _ in range(n)]])
        ops = []
        for _ in range(r.randint(1, 14)):
            x = r.random()
            if x < .5:
                ops.append(["add_constraint", r.randrange(len(specs))])
            elif x < .65:
                ops.append(["add_variable", r.choice(pool)])
            elif x < .82:
                ops.append(["rem_constraint", r.randrange(len(specs))])
            else:
                ops.append(["rem_variable", r.choice(pool)])
        yield {"pool": pool, "specs": specs, "ops": ops,
               "q": [[r.choice(pool + ["absent"]) for _ in range(r.randint(0, 4))] for _ in range(4)]}


def check(inp):
    logging.getLogger("constraint").setLevel(logging.ERROR)
    cs = [make(s, i) for i, s in enumerate(inp["specs"])]
    mv = [[hv(x) for x in s[1]] for s in inp["specs"]]
    g = ConstraintGraph()
    V, K = set(), []
    for c, vs in zip(cs, mv):
        need(list(c.variables()) == vs, "variables of %s: %r", c, c.variables())
    for op in inp["ops"]:
        k = op[0]
        if k == "add_constraint":
            g.add_constraint(cs[op[1]])
            if op[1] not in K:
                K.append(op[1])
                V.update(mv[op[1]])
        elif k == "add_variable":
            g.add_variable(hv(op[1]))
            V.add(hv(op[1]))
        elif k == "rem_constraint":
            g.rem_constraint(cs[op[1]])
            K = [i for i in K if i != op[1]]
        else:
            v = hv(op[1])
            g.rem_variable(v)
            if v in V:
                V.discard(v)
                K = [i for i in K if v not in mv[i]]
        vs, ks = list(g.variables()), list(g.constraints())
        need(len(vs) == len(V) and set(vs) == V, "after %r: variables %r, expected %r", op, vs, V)
        same(ks, [cs[i] for i in K], "after %r: constraints" % (op,))
        for v in [hv(x) for x in inp["pool"]] + ["absent"]:
            same(g.get_constraints_on(v), [cs[i] for i in K if v in mv[i]], "after %r: constraints on %r" % (op, v))
        for q in inp["q"]:
            q = [hv(x) for x in q]
            same(g.get_constraints_on_all(q), [cs[i] for i in K if q and all(v in mv[i] for v in q)], "after %r: constraints on all of %r" % (op, q))
            same(g.get_constraints_on_any(q), [cs[i] for i in K if any(v in mv[i] for v in q)], "after %r: constraints on any of %r" % (op, q))
        need(set(g.variables()) == V and len(list(g.constraints())) == len(K), "a query changes the graph")


def same(got, want, what):
    got = list(got)
    need(len(got) == len(want) and all(any(a is b for b in got) for a in want), "%s: %s, expected %s", what,
         [str(x) for x in got], [str(x) for x in want])
