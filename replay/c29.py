from mmodel import *
import logging
from solver.graph import Graph
from solver.method import MultiVariable, SumProdMethod
from solver.geometry import Vector, Matrix
from solver.geometric.constraint import *
from solver.geometric.cluster import Rigid, Balloon, Hedgehog
from solver.geometric.configuration import Configuration
from solver.geometric.relation import Distance, Angle
BOUND = "all classes, up to 5 random names of any hashable type, debug logging on"


class Odd(object):
    """A hashable name that is not a string; equal to nothing else."""

    def __str__(self):
        return "odd name {0} %s"


def cases(S):
    r = S.rng
    while True:
        yield {"names": name_pool(S, 5) if r.random() < .85 else ["odd", "a", 1, ["t", 2], None], "x": [S.number() for _ in range(6)], "n": r.randint(0, 5)}


def objects(n, x, k):
    g = Graph()
    for i, v in enumerate(n[:k]):
        g.add_vertex(v)
        for w in n[:i]:
            g.add_edge(v, w, x[i % 6])
    yield g, n[:k], lambda: (g.vertices(), g.edges())
    ms = [AddMethod(n[0], n[1], n[2]), SubMethod(n[0], n[1], n[2]), SetMethod(n[0], n[1]), SetMethod(n[0], (1, 2)), AssignMethod(n[0], n[1]),
          Fn(1, n[:2], n[2:4]), Fn(1, [], n[:1]), Fn(2, [], [])]
    for m in ms:
        yield m, list(m.inputs) + list(m.outputs), lambda: (m.name, list(m.inputs), list(m.outputs))
    mg = MethodGraph()
    mg.add_variable(n[0], x[0])
    mg.add_variable(n[1], x[1])
    m1 = AddMethod(n[0], n[1], n[2])
    mg.add_method(m1)
    mg.add_method(AssignMethod(n[3], n[2]))
    yield mg, n[:4], lambda: (list(mg.variables()), [mg.get(v) for v in mg.variables()], list(mg.methods()))
    mg2 = MethodGraph()
    for v in n[:k]:
        mg2.add_variable(v)
    yield mg2, n[:k], lambda: list(mg2.variables())
    mg3 = MethodGraph()
    mg3.add_method(AddMethod(n[0], n[1], n[2]), prop=False)
    yield mg3, n[:3], lambda: (list(mg3.variables()), list(mg3.methods()))
    a, b = MultiVariable("mv"), MultiVariable()
    yield a, ["mv"], lambda: a.name
    yield b, [], lambda: b.name
    sp = SumProdMethod(n[0], b, a)
    yield sp, [n[0], a], lambda: (sp.inputs, sp.outputs)
    cs = [PlusConstraint(n[0], n[1], n[2]), FunctionConstraint(is_clockwise, n[:3]), FunctionConstraint(lambda *q: True, n[:k], name="own"),
          NotClockwiseConstraint(*n[:3]), NotCounterClockwiseConstraint(*n[:3]), NotObtuseConstraint(*n[:3]), NotAcuteConstraint(*n[:3])]
    for c in cs:
        yield c, c.variables(), lambda: c.variables()
    cg = ConstraintGraph()
    for v in n[:k]:
        cg.add_variable(v)
    for c in cs:
        cg.add_constraint(c)
    yield cg, n[:k], lambda: (list(cg.variables()), list(cg.constraints()))
    cg.rem_variable("nowhere at all")
    cg.rem_constraint(PlusConstraint(*n[:3]))
    for c in (Rigid(n[:k]), Rigid([]), Balloon(n[:3]), Hedgehog(n[0], n[1:4])):
        yield c, list(c.vars), lambda: (set(c.vars), c.overconstrained)
        c.overconstrained = True
        yield c, list(c.vars), lambda: (set(c.vars), c.overconstrained)
    Rigid(n[:k]).intersection(Hedgehog(n[0], n[1:4]))
    for d in (Distance(n[0], n[1]), Angle(n[0], n[1], n[2])):
        yield d, list(d.points), lambda: list(d.points)
    cf = Configuration({v: Vector(x[i], x[i + 1]) for i, v in enumerate(n[:k])})
    yield cf, n[:k], lambda: (dict(cf.mapping), cf.underconstrained)
    cf.merge(Configuration({}))
    for v in (Vector(x[0], x[1]), Vector.origin()):
        yield v, [], lambda: (v.x, v.y)
    for m in (Matrix([[x[0], x[1], x[2]], [x[3], x[4], x[5]]]), Matrix([[x[0]]])):
        yield m, [], lambda: [list(r) for r in m.elements]


def check(inp):
    odd = Odd()
    n = [odd if v == "odd" else hv(v) for v in inp["names"]]
    while len(n) < 5:
        n.append("extra%d" % len(n))
    class Strict(logging.Handler):
        def emit(self, rec):
            rec.getMessage()
    root = logging.getLogger()
    h = Strict()
    old, lev = list(root.handlers), root.level
    root.handlers[:] = [h]
    root.setLevel(logging.DEBUG)
    try:
        for o, names, see in objects(n, inp["x"], inp["n"]):
            before = see()
            t, u = str(o), repr(o)
            "%s" % o
            "{0}".format(o)
            need(isinstance(t, str) and isinstance(u, str), "text of a %s is %r", type(o).__name__, t)
            after = see()
            need(before == after, "rendering changes a %s", type(o).__name__)
            for v in names:
                need(str(v) in t or repr(v) in t, "the text %r of a %s does not mention %r", t, type(o).__name__, v)
        a, b = Vector(inp["x"][0], inp["x"][1]), Vector(inp["x"][2], inp["x"][3])
        from solver import geometry as G
        G.cc_int(a, 1.0, b, 2.0)
        G.cl_int(a, 1.0, b, Vector(1.0, 2.0))
    finally:
        root.handlers[:] = old
        root.setLevel(lev)
