from gmodel import *
BOUND = "histories of up to 14 graph operations over up to 7 vertices"


def cases(S):
    for ops, pool in histories(S):
        yield {"ops": ops}


def check(inp):
    g, m = Graph(), M()
    for op in inp["ops"]:
        ok = m.apply(op)
        r, v = attempt(getattr(g, op[0]), *[hv(x) for x in op[1:]])
        need(r == ("ok" if ok else "err"), "%r %s", op, "raises %r" % v if ok else "of something absent raises no error")
        same_as_model(g, m, "after %r" % (op,))
        for v in m.V:
            need(g.has_vertex(v), "after %r: vertex %r not found", op, v)
        for e in m.E:
            need(g.has_edge(*e), "after %r: edge %r not found", op, e)
