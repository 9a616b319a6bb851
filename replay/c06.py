from c05 import *
BOUND = "random graphs of up to 9 vertices, every vertex and direction; chains and rings of up to 40"


def check(inp):
    g, vs, es = make(inp)
    before = state(g)
    rev = {(b, a) for a, b in es}
    for name, rel, calls in (("both", es | rev, [lambda v: g.connected(v)]),
                             ("incoming", rev, [lambda v: g.connected(v, ingoing=True, outgoing=False),
                                                lambda v: g.connected_via_ingoing(v)]),
                             ("outgoing", es, [lambda v: g.connected(v, ingoing=False, outgoing=True),
                                               lambda v: g.connected_via_outgoing(v)])):
        reach = closure(vs, rel)
        for v in vs[:12]:
            want = reach[v] - {v}
            for f in calls:
                got = list(f(v))
                need(len(got) == len(want) and set(got) == want, "connected to %r (%s): %r, expected %r", v, name, got, want)
    reach = closure(vs, es | rev)
    want = {frozenset(reach[v] | {v}) for v in vs}
    got = [frozenset(c) for c in g.connected_subsets()]
    need(len(got) == len(want) and set(got) == want, "connected subsets %r, expected %r", got, want)
    need(state(g) == before, "a query changes the graph")
