"""Reference model of a directed graph with edge values, and random histories of graph operations."""
from common import *
from solver.graph import Graph


class M(object):
    def __init__(self):
        self.V, self.E = set(), {}

    def clone(self):
        m = M()
        m.V, m.E = set(self.V), dict(self.E)
        return m

    def apply(self, op):
        """True, or False when the operation must be refused (and then changes nothing)."""
        k, a = op[0], [hv(x) for x in op[1:]]
        V, E = self.V, self.E
        if k == "add_vertex":
            V.add(a[0])
        elif k == "remove_vertex":
            if a[0] not in V:
                return False
            V.discard(a[0])
            for e in [e for e in E if a[0] in e]:
                del E[e]
        elif k in ("add_edge", "add_bi_edge"):
            val = a[2] if len(a) > 2 else 1
            V.update(a[:2])
            E.setdefault((a[0], a[1]), val)
            if k == "add_bi_edge":
                E.setdefault((a[1], a[0]), val)
        elif k == "remove_edge":
            if (a[0], a[1]) not in E:
                return False
            del E[a[0], a[1]]
        elif k == "remove_bi_edge":
            if (a[0], a[1]) not in E or (a[1], a[0]) not in E:
                return False
            E.pop((a[0], a[1]))
            E.pop((a[1], a[0]), None)
        elif k in ("set", "set_bi_edge"):
            V.update(a[:2])
            E[a[0], a[1]] = a[2]
            if k == "set_bi_edge":
                E[a[1], a[0]] = a[2]
        return True


def same(x, y):
    return x == y and type(x) == type(y)


def gen_ops(S, pool, n):
    r = S.rng
    ops = []
    for _ in range(n):
        u, w = r.choice(pool), r.choice(pool)
        k = r.choice(["add_vertex", "remove_vertex", "add_edge", "add_edge", "add_edge", "remove_edge", "add_bi_edge",
                      "remove_bi_edge", "set", "set", "set_bi_edge"])
        if k in ("add_vertex", "remove_vertex"):
            ops.append([k, u])
        elif k in ("add_edge", "add_bi_edge"):
            ops.append([k, u, w] + ([r.choice(VALUES)] if r.random() < .6 else []))
        elif k in ("set", "set_bi_edge"):
            ops.append([k, u, w, r.choice(VALUES)])
        else:
            ops.append([k, u, w])
    return ops


def histories(S, length=14, systematic=True):
    """Histories of operations: short ones over two vertices first, then random ones."""
    one = [["add_vertex", "a"], ["remove_vertex", "a"], ["add_edge", "a", "b"], ["add_edge", "a", "b", None],
           ["add_edge", "a", "a", 2], ["remove_edge", "a", "b"], ["remove_edge", "a", "a"], ["add_bi_edge", "a", "b", 3],
           ["add_bi_edge", "b", "b"], ["remove_bi_edge", "a", "b"], ["remove_bi_edge", "b", "a"], ["remove_bi_edge", "a", "a"],
           ["set", "a", "b", 5], ["set", "b", "a", 0], ["set", "a", "a", None], ["set_bi_edge", "a", "b", 6],
           ["remove_vertex", "b"]]
    if systematic:
        for n in (0, 1, 2):
            for c in itertools.product(one, repeat=n):
                yield [list(x) for x in c], ["a", "b", "c"]
    while True:
        pool = name_pool(S, S.rng.choice([1, 2, 3, 3, 4, 5, 7]))
        yield gen_ops(S, pool, S.rng.randint(1, length)), pool


def build(ops, g=None, m=None):
    g = Graph() if g is None else g
    m = M() if m is None else m
    for op in ops:
        attempt(getattr(g, op[0]), *[hv(x) for x in op[1:]])
        m.apply(op)
    return g, m


def state(g):
    """What the graph shows to its users."""
    vs = list(g.vertices())
    return (frozenset(vs), frozenset((e, repr(g.get(*e))) for e in g.edges()),
            frozenset((v, frozenset(g.ingoing_vertices(v)), frozenset(g.outgoing_vertices(v))) for v in vs))


def same_as_model(g, m, what):
    vs, es = list(g.vertices()), list(g.edges())
    need(set(vs) == m.V and len(vs) == len(m.V), "%s: vertices %r, expected %r", what, vs, m.V)
    need(set(es) == set(m.E) and len(es) == len(m.E), "%s: edges %r, expected %r", what, es, set(m.E))
    for e in m.E:
        need(same(g.get(*e), m.E[e]), "%s: value of %r is %r, expected %r", what, e, g.get(*e), m.E[e])
    for v in m.V:
        i, o = list(g.ingoing_vertices(v)), list(g.outgoing_vertices(v))
        need(sorted(map(repr, i)) == sorted(repr(a) for a, b in m.E if b == v), "%s: ingoing of %r: %r", what, v, i)
        need(sorted(map(repr, o)) == sorted(repr(b) for a, b in m.E if a == v), "%s: outgoing of %r: %r", what, v, o)
