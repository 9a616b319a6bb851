"""Clusters: generators."""
from common import *
from solver.geometric.cluster import Rigid, Balloon, Hedgehog, Cluster
from solver.geometric.relation import Distance, Angle


def gen_cluster(S, pool):
    r = S.rng
    k = r.choice(["R", "B", "H"])
    n = r.randint(0, len(pool)) if k == "R" else r.randint(3, max(3, len(pool)))
    vs = r.sample(pool, min(n, len(pool)))
    if r.random() < .2 and vs:
        vs = vs + [r.choice(vs)]
    return [k] + vs


def small():
    names = [1, 2, 3, 4, 5]
    cl = []
    for n in (0, 1, 2, 3, 4, 5):
        for c in itertools.combinations(names, n):
            cl.append(["R"] + list(c))
            if n >= 3:
                cl.append(["B"] + list(c))
                for i in range(n):
                    cl.append(["H", c[i]] + [x for x in c if x != c[i]])
    return cl


def pairs(S):
    r = S.rng
    cl = small()
    todo = list(itertools.product(cl, cl))
    r.shuffle(todo)
    for a, b in todo[:4000]:
        yield {"a": a, "b": b}
    while True:
        pool = name_pool(S, r.randint(3, 9))
        if len(pool) < 3:
            continue
        yield {"a": gen_cluster(S, pool), "b": gen_cluster(S, pool)}


def build(d):
    vs = [hv(x) for x in d[1:]]
    if d[0] == "R":
        return Rigid(vs)
    if d[0] == "B":
        return Balloon(vs)
    return Hedgehog(vs[0], vs[1:])


def valid(d):
    return d[0] == "R" or len(set(hv(x) for x in d[1:])) >= 3


def snap(c):
    return (type(c), frozenset(c.vars), getattr(c, "c_var", None), frozenset(getattr(c, "x_vars", ())), c.overconstrained)


def shape(c):
    """A cluster as plain data."""
    if c is None:
        return None
    if isinstance(c, Hedgehog):
        need(c.c_var not in c.x_vars and set(c.vars) == set(c.x_vars) | {c.c_var}, "the hedgehog %s is not well formed", c)
        return ("H", c.c_var, frozenset(c.x_vars))
    return ("B" if isinstance(c, Balloon) else "R" if isinstance(c, Rigid) else "?", frozenset(c.vars))


def ang(a):
    return ("angle", a.points[1], frozenset([a.points[0], a.points[2]]))
