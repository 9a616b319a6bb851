"""C29: every object renders as text; rendering changes nothing and mentions the names."""
import z3
from pyvc.verify import spec, Out
from pyvc.values import *
from pyvc.ops import *
from contracts import c23, methodlib
from contracts.clusterlib import cluster, CL, KINDS
from contracts.conflib import sym_conf, names_points, CONF, VEC
from contracts.graphlib import *

M, K, REL, GEO = "solver.method:", "solver.geometric.constraint:", "solver.geometric.relation:", "solver.geometry:"


def rendered(v, o, what, names, text=True):
    """Both kinds of text exist; the text mentions the names (terms, or conditions on a name)."""
    x = v.u("name")
    for kind in ("py_str", "py_repr"):
        try:
            r = Out(getattr(v.it, kind)(o))
        except PyRaise as e:
            r = Out(exc=e)
        label = "%s of a %s" % ({"py_str": "text", "py_repr": "representation"}[kind], what)
        v.ensure(label + " is made without an error", r.ok)
        if not r.ok:
            return
        v.ensure(label + " is a string", isinstance(r.value, (str, OpaqueStr)))
        if kind == "py_str" and text:
            for n, c in names:
                v.ensure("%s mentions %s" % (label, n), z3.Implies(zb(c(x)), v.it.text_mentions(r.value, x)))


def is_(*terms):
    return lambda x: z3.Or(*[x == t for t in terms])


def keeps(v, o, what):
    """What the object holds, to be compared after rendering: every reachable slot keeps its content."""
    old = [(c, dict(c.slots)) for c in cells(v, o).values()]

    def check():
        for c, slots in old:
            same = set(slots) == set(c.slots) and all(c.slots[k] is slots[k] or v.it.eq(c.slots[k], slots[k]) is True
                                                       for k in slots if not isinstance(slots[k], (ListV, SetV, DictV, Obj)) and k != "rep")
            same = same and all(c.slots[k] is slots[k] for k in slots if isinstance(slots[k], (ListV, SetV, DictV, Obj)) or k == "rep")
            v.ensure("rendering leaves the %s as it was" % what, same)
    return check


def whole(v, o, what, names, text=True):
    after = keeps(v, o, what)
    rendered(v, o, what, names, text)
    after()


@spec("C29", GRAPH + ".__str__")
def graph(v):
    g = sym_graph(v)
    V, E, _ = g.state()
    whole(v, g.obj, "graph", [("every vertex", V)])


def lists(v):
    i, I_ = sym_list(v, "inputs")
    o, O = sym_list(v, "outputs")
    return i, o, [("every input", I_), ("every output", O)]


def bare(v, cls, *args):
    """An object of a class of the user's that inherits everything but the abstract methods."""
    o = v.ctx.new(Obj(v.it.get_class(cls)))
    r = v.call(cls + ".__init__", o, *args)
    v.ensure("construction succeeds", r.ok)
    return o


@spec("C29", M + "Method.__str__", M + "Method.__init__")
def method(v):
    """A method of the user's, with any name, inputs and outputs, that keeps the text of Method."""
    i, o, names = lists(v)
    whole(v, bare(v, M + "Method", v.u("n"), i, o), "method", names)


@spec("C29", M + "Method.__str__", M + "MultiMethod.__init__")
def multi_method(v):
    """A multi-valued method of the user's."""
    MV = z3.Function("is_multivariable", U, B)
    v.ctx.opaque_isa = dict(v.ctx.opaque_isa, MultiVariable=lambda it, x: MV(x))
    i, mem = sym_list(v, "inputs")
    out = v.u("out")
    v.assume(MV(out))
    whole(v, bare(v, M + "MultiMethod", v.u("n"), i, v.list([out])), "multi-valued method", [("every input", mem), ("its output", is_(out))])


@spec("C29", K + "SelectionConstraint.__str__", K + "SelectionConstraint.__init__")
def selection_constraint(v):
    """A selection constraint of the user's, with any name and variables."""
    l, mem = sym_list(v, "variables")
    whole(v, bare(v, K + "SelectionConstraint", v.u("n"), l), "selection constraint", [("every variable", mem)])


def builtin(kind, n, k):
    @spec("C29", M + kind + ".__init__", M + ("Method" if kind in ("AddMethod", "SubMethod") else kind) + ".__str__", name=kind)
    def s(v):
        ns = [v.u("abcd"[j]) for j in range(n)]
        m = v.new(M + kind, *(ns + [v.u("value")] * k))
        whole(v, m, kind, [("its variables", is_(*ns))])


for _k, _n, _v in (("AddMethod", 3, 0), ("SubMethod", 3, 0), ("SetMethod", 1, 1), ("AssignMethod", 2, 0)):
    builtin(_k, _n, _v)


@spec("C29", M + "SetMethod.__str__")
def set_number(v):
    a, x = v.u("a"), v.real("x")
    whole(v, v.new(M + "SetMethod", a, x), "SetMethod of a number", [("its variable", is_(a))])


@spec("C29", M + "SetMethod.__str__")
def set_pair(v):
    """The value may be a tuple."""
    a = v.u("a")
    whole(v, v.new(M + "SetMethod", a, (v.u("p"), v.u("q"))), "SetMethod of a pair", [("its variable", is_(a))])


@spec("C29", M + "MultiVariable.__str__", M + "MultiVariable.__repr__")
def multi_variable(v):
    n = v.u("n")
    v.assume(n != v.ctx.uconst(None))
    whole(v, v.new(M + "MultiVariable", n), "multi-valued variable", [("its name", is_(n))])


@spec("C29", M + "MultiVariable.__str__", M + "MultiVariable.__repr__")
def multi_variable_without_name(v):
    whole(v, v.new(M + "MultiVariable"), "multi-valued variable without a name", [])


@spec("C29", M + "SumProdMethod.__init__", M + "Method.__str__")
def sum_prod(v):
    MV = z3.Function("is_multivariable", U, B)
    v.ctx.opaque_isa = dict(v.ctx.opaque_isa, MultiVariable=lambda it, x: MV(x))
    a, b, c = v.u("a"), v.u("b"), v.u("c")
    v.assume(MV(c))
    whole(v, v.new(M + "SumProdMethod", a, b, c), "sum and product method", [("its variables", is_(a, b, c))])


@spec("C29", methodlib.MG + ".__str__")
def method_graph(v):
    g, s = methodlib.sym(v)
    whole(v, g, "method graph", [("every variable", s.Vr), ("every method", s.Mt)])


@spec("C29", K + "PlusConstraint.__str__", K + "PlusConstraint.__init__")
def plus_constraint(v):
    a, b, c = v.u("a"), v.u("b"), v.u("c")
    whole(v, v.new(K + "PlusConstraint", a, b, c), "plus constraint", [("its variables", is_(a, b, c))])


@spec("C29", K + "FunctionConstraint.__str__", K + "FunctionConstraint.__init__", K + "SelectionConstraint.__init__")
def function_constraint(v):
    """Any function object (with or without a name of its own), any constraint name and any variables."""
    l, mem = sym_list(v, "variables")
    whole(v, v.new(K + "FunctionConstraint", v.u("f"), l, v.u("n")), "function constraint", [("every variable", mem)])


@spec("C29", K + "FunctionConstraint.__str__")
def function_constraint_default(v):
    l, mem = sym_list(v, "variables")
    whole(v, v.new(K + "FunctionConstraint", v.fn(GEO + "is_clockwise"), l), "function constraint of a function",
          [("every variable", mem)])


def selection(kind):
    @spec("C29", K + kind + ".__init__", K + "FunctionConstraint.__str__", name=kind)
    def s(v):
        a, b, c = v.u("a"), v.u("b"), v.u("c")
        whole(v, v.new(K + kind, a, b, c), kind, [("its variables", is_(a, b, c))])


for _k in ("NotClockwiseConstraint", "NotCounterClockwiseConstraint", "NotObtuseConstraint", "NotAcuteConstraint"):
    selection(_k)


@spec("C29", K + "ConstraintGraph.__str__")
def constraint_graph(v):
    g, V, C = c23.sym(v)
    whole(v, g, "constraint graph", [("every variable", V), ("every constraint", C)])


def a_cluster(kind):
    @spec("C29", CL + "Cluster.__str__", CL + "Cluster.var_list", CL + kind + ".__init__", name=kind)
    def s(v):
        c, mem, _ = cluster(v, kind, "c")
        v.it.set_attr(c, "overconstrained", v.bool("over"))
        whole(v, c, kind.lower(), [("every point", mem)])


for _k in KINDS:
    a_cluster(_k)


@spec("C29", REL + "PointRelation.__str__", REL + "Distance.__init__")
def distance(v):
    a, b = v.u("a"), v.u("b")
    whole(v, v.new(REL + "Distance", a, b), "distance", [("its points", is_(a, b))])


@spec("C29", REL + "PointRelation.__str__", REL + "Angle.__init__")
def angle(v):
    a, b, c = v.u("a"), v.u("b"), v.u("c")
    whole(v, v.new(REL + "Angle", a, b, c), "angle", [("its points", is_(a, b, c))])


@spec("C29", CONF + ".__str__", CONF + ".__repr__", VEC + ".__repr__")
def configuration(v):
    c, D, P, _ = sym_conf(v, "c")
    whole(v, c, "configuration", [("every point", D)])


@spec("C29", VEC + ".__str__", VEC + ".__repr__")
def vector(v):
    whole(v, v.vec("p"), "vector", [])


def matrix(r, c):
    @spec("C29", GEO + "Matrix.__repr__", name="matrix_%dx%d" % (r, c))
    def s(v):
        m = v.new(GEO + "Matrix", v.list([v.list([v.real("m%d%d" % (i, j)) for j in range(c)]) for i in range(r)]))
        whole(v, m, "matrix", [])


for _r, _c in ((1, 1), (1, 3), (2, 1), (3, 3), (0, 0)):
    matrix(_r, _c)
