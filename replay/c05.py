from gmodel import *
BOUND = "random graphs of up to 9 vertices, every pair of vertices; chains and rings of up to 40"


def graphs(S):
    r = S.rng
    for n in (1, 2, 3):
        vs = list("abc"[:n])
        pairs = [(u, w) for u in vs for w in vs]
        for mask in range(1 << len(pairs)):
            yield vs, [list(p) for i, p in enumerate(pairs) if mask >> i & 1]
    while True:
        if r.random() < 0.05:
            n = r.randint(10, 40)
            vs = list(range(n))
            es = [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if r.random() < .5 else [])
            es += [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(0, 4))]
            r.shuffle(es)
            yield vs, es
            continue
        vs = name_pool(S, r.choice([2, 3, 4, 5, 6, 7, 8, 9]))
        m = r.randint(0, min(20, len(vs) * len(vs)))
        yield vs, [[r.choice(vs), r.choice(vs)] for _ in range(m)]


def cases(S):
    for vs, es in graphs(S):
        yield {"vs": vs, "es": es}


def closure(vs, es):
    """vertex -> set of vertices reached by one or more edges"""
    out = {}
    nxt = {v: [b for a, b in es if a == v] for v in vs}
    for v in vs:
        seen, todo = set(), list(nxt[v])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += nxt[x]
        out[v] = seen
    return out


def make(inp):
    g = Graph()
    vs = [hv(v) for v in inp["vs"]]
    es = [(hv(a), hv(b)) for a, b in inp["es"]]
    for v in vs:
        g.add_vertex(v)
    for a, b in es:
        g.add_edge(a, b)
    return g, vs, set(es)


def check(inp):
    g, vs, es = make(inp)
    before = state(g)
    reach = closure(vs, es)
    for s in vs[:12]:
        for t in vs[:12]:
            p = g.path(s, t)
            if not p:
                need(t not in reach[s], "no path from %r to %r is found", s, t)
                continue
            need(len(p) >= 2 and p[0] == s and p[-1] == t, "path(%r, %r) gives %r", s, t, p)
            for a, b in zip(p, p[1:]):
                need((a, b) in es, "path(%r, %r) gives %r: %r is no edge", s, t, p, (a, b))
    need(state(g) == before, "a path search changes the graph")
