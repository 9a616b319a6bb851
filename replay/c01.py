from gmodel import *
BOUND = "histories of up to 14 graph operations over up to 7 vertices, plus derived graphs"


def cases(S):
    for ops, pool in histories(S):
        yield {"ops": ops, "then": S.rng.choice(["", "", "copy", "reverse", "subgraph", "ctor"]),
               "sub": [p for p in pool if S.rng.random() < .6], "more": gen_ops(S, pool, 3)}


def mirror(g, what):
    vs = list(g.vertices())
    out = {v: list(g.outgoing_vertices(v)) for v in vs}
    inn = {v: list(g.ingoing_vertices(v)) for v in vs}
    fwd = [(v, w) for v in vs for w in out[v]]
    rev = [(v, w) for w in vs for v in inn[w]]
    need(len(fwd) == len(set(fwd)) and len(rev) == len(set(rev)), "%s: an edge is listed twice", what)
    need(set(fwd) == set(rev), "%s: outgoing view %r, incoming view %r", what, fwd, rev)
    for e in g.edges():
        need(e in set(fwd), "%s: edge %r is not in the outgoing view", what, e)
        need(e[0] in vs and e[1] in vs, "%s: end point of %r is not a vertex", what, e)
    r = getattr(g, "_reverse", None)
    if isinstance(r, dict) and all(isinstance(x, dict) for x in r.values()):
        for v, w in fwd:
            need(w in r and v in r[w] and same(r[w][v], g.get(v, w)), "%s: edge %r has value %r in one view and %r in the other",
                 what, (v, w), g.get(v, w), r.get(w, {}).get(v, "nothing"))


def check(inp):
    g = Graph()
    for op in inp["ops"]:
        attempt(getattr(g, op[0]), *[hv(x) for x in op[1:]])
        mirror(g, "after %r" % (op,))
    t = inp["then"]
    if t:
        h = g.copy() if t == "copy" else g.reverse() if t == "reverse" else Graph(g) if t == "ctor" else \
            g.subgraph([hv(x) for x in inp["sub"]])
        mirror(h, t)
        for op in inp["more"]:
            attempt(getattr(h, op[0]), *[hv(x) for x in op[1:]])
            mirror(h, "after %r on a %s" % (op, t))
            mirror(g, "original after %r on a %s" % (op, t))
