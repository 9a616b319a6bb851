from gmodel import *
BOUND = "graphs from histories of up to 14 operations over up to 7 vertices; up to 6 later changes to either graph"


def cases(S):
    n = 0
    for ops, pool in histories(S, 12):
        n += 1
        if n < 300 and n % 5:
            continue
        sub = [S.rng.choice(pool + ["absent"]) for _ in range(S.rng.randint(0, len(pool) + 1))]
        yield {"ops": ops, "sub": sub, "as": S.rng.choice(["list", "tuple", "set"]), "how": S.rng.choice(["copy", "ctor", "subgraph", "reverse"]),
               "a": gen_ops(S, pool, S.rng.randint(0, 4)), "b": gen_ops(S, pool, S.rng.randint(0, 4))}


def check(inp):
    g, m = build(inp["ops"])
    how = inp["how"]
    n = M()
    if how in ("copy", "ctor"):
        h = g.copy() if how == "copy" else Graph(g)
        n = m.clone()
    elif how == "subgraph":
        vs = {"list": list, "tuple": tuple, "set": set}[inp["as"]]([hv(x) for x in inp["sub"]])
        before = repr(vs)
        h = g.subgraph(vs)
        need(repr(vs) == before, "subgraph changes the given vertices")
        n.V = set(vs) & m.V
        n.E = {e: x for e, x in m.E.items() if e[0] in n.V and e[1] in n.V}
    else:
        h = g.reverse()
        n.V = set(m.V)
        n.E = {(b, a): x for (a, b), x in m.E.items()}
    need(isinstance(h, Graph), "%s is not a graph", how)
    same_as_model(g, m, "original after %s" % how)
    same_as_model(h, n, how)
    for op in inp["a"]:
        attempt(getattr(h, op[0]), *[hv(x) for x in op[1:]])
        n.apply(op)
        same_as_model(g, m, "original after a change to its %s" % how)
    for op in inp["b"]:
        attempt(getattr(g, op[0]), *[hv(x) for x in op[1:]])
        m.apply(op)
        same_as_model(h, n, "%s after a change to the original" % how)
