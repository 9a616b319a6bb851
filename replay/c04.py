from gmodel import *
BOUND = "graphs from histories of up to 14 operations over up to 7 vertices, all queries, plus later changes"


def cases(S):
    n = 0
    for ops, pool in histories(S, 14):
        n += 1
        if n < 300 and n % 4:
            continue
        yield {"ops": ops, "pool": pool + ["absent"], "more": gen_ops(S, pool, 3)}


def listing(name, got, want, kept):
    need(isinstance(got, list), "%s gives a %s, not a list", name, type(got).__name__)
    need(len(got) == len(want) and all(x in got for x in want), "%s gives %r, expected %r", name, got, want)
    for x in got:
        need(sum(1 for y in got if y == x) == 1, "%s lists %r twice", name, x)
    kept.append((name, got, list(got)))


def check(inp):
    g, m = build(inp["ops"])
    before = state(g)
    kept = []
    listing("vertices", g.vertices(), list(m.V), kept)
    listing("edges", g.edges(), list(m.E), kept)
    for v in m.V:
        i, o = [a for a, b in m.E if b == v], [b for a, b in m.E if a == v]
        listing("ingoing_vertices", g.ingoing_vertices(v), i, kept)
        listing("outgoing_vertices", g.outgoing_vertices(v), o, kept)
        listing("adjacent_vertices", g.adjacent_vertices(v), list(set(i) | set(o)), kept)
        listing("ingoing_edges", g.ingoing_edges(v), [(a, v) for a in i], kept)
        listing("outgoing_edges", g.outgoing_edges(v), [(v, b) for b in o], kept)
        listing("adjacent_edges", g.adjacent_edges(v), list(set([(a, v) for a in i] + [(v, b) for b in o])), kept)
    pool = [hv(x) for x in inp["pool"]]
    for u in pool:
        need(g.has_vertex(u) is (u in m.V), "has_vertex(%r) is %r", u, g.has_vertex(u))
        for w in pool:
            f, b = (u, w) in m.E, (w, u) in m.E
            for name, want in (("has_edge", f), ("has_bi_edge", f and b), ("has_any_edge", f or b)):
                need(bool(getattr(g, name)(u, w)) == want, "%s(%r, %r) is not %r", name, u, w, want)
            if f:
                need(same(g.get(u, w), m.E[u, w]), "get(%r, %r)", u, w)
    need(state(g) == before, "a query changes the graph")
    for op in inp["more"]:
        attempt(getattr(g, op[0]), *[hv(x) for x in op[1:]])
        m.apply(op)
    for name, got, snap in kept:
        need(got == snap, "the list from %s changes with the graph", name)
        got.append("new")
        if len(got) > 1:
            got.pop(0)
    same_as_model(g, m, "after changing returned lists")
