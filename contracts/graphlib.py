"""Symbolic graphs: an arbitrary well-formed Graph is an arbitrary (V, E, W) with E between vertices of V."""
import z3
from pyvc.values import *
from pyvc.ops import *

GRAPH = "solver.graph:Graph"


class G(object):
    """A graph object of the interpreted program with its abstract state."""

    def __init__(self, v, obj):
        self.v, self.obj = v, obj

    def state(self):
        f = self.obj.slots.get("_forward")
        if not isinstance(f, DictV):
            raise Unsupported("graph representation")
        return self.v.it.edge_funcs(f.rep)

    def mirror(self, X, Y):
        return zb(self.v.it.mirror_goal(self.obj, X, Y))


def sym_graph(v, name="g"):
    """Any well-formed graph (the data structure invariant of C01 holds)."""
    g = v.new(GRAPH)
    V = z3.Function(name + ".V", U, B)
    E = z3.Function(name + ".E", U, U, B)
    W = z3.Function(name + ".W", U, U, U)
    if not isinstance(g.slots.get("_forward"), DictV) or not isinstance(g.slots.get("_reverse"), DictV):
        raise Unsupported("graph representation")
    v.it.write_view(g, lambda x: V(x), lambda x, y: E(x, y), lambda x, y: W(x, y))
    return G(v, g)


def vars2(v):
    return v.ctx.const("X", U), v.ctx.const("Y", U)


def sym_list(v, name, dup=True):
    """Any list of opaque values (possibly with repetitions); returns the list and its membership."""
    M = z3.Function(name + ".mem", U, B)
    mem = lambda x: M(v.it.to_u(x))
    nd = v.ctx.const(name + ".nodup", B) if dup else True
    return v.ctx.new(ListV(v.it.fresh_list_of(mem, SU, nd, name))), (lambda x: M(x))


def sym_set(v, name):
    M = z3.Function(name + ".mem", U, B)
    return v.ctx.new(SetV(SSet(lambda x: M(v.it.to_u(x)), SU, None))), (lambda x: M(x))


def same_state(v, a, b, X, Y):
    """Two abstract states agree at (X, Y)."""
    return And(zb(a[0](X)) == zb(b[0](X)), zb(a[1](X, Y)) == zb(b[1](X, Y)), Implies(a[1](X, Y), a[2](X, Y) == b[2](X, Y)))


def cells(v, o, seen=None):
    """The mutable objects reachable from an object of the interpreted program."""
    seen = {} if seen is None else seen
    if isinstance(o, Obj):
        if id(o) in seen:
            return seen
        seen[id(o)] = o
        for x in o.slots.values():
            cells(v, x, seen)
    elif isinstance(o, (ListV, SetV, DictV)):
        seen[id(o)] = o
        rep = o.slots.get("rep")
        for x in getattr(rep, "items", None) or ():
            cells(v, x, seen)
    elif isinstance(o, tuple):
        for x in o:
            cells(v, x, seen)
    return seen


def disjoint(v, a, b):
    return not (set(cells(v, a)) & set(cells(v, b)))


def is_graph(v, o):
    return isinstance(o, Obj) and o.cls is v.it.get_class(GRAPH)


def use_remove_vertex(v, g):
    """Use the contract of remove_vertex (proved as C01, C02) on this graph."""
    def remove_vertex(v, self, vertex):
        if self is not g:
            return MISSING
        V, E, W = v.it.read_view(g)
        a = v.it.to_u(vertex)
        if not v.ctx.branch(zb(V(a))):
            return MISSING
        v.it.write_view(g, lambda x: And(V(x), x != a), lambda x, y: And(E(x, y), x != a, y != a), W)
        return None
    v.use(GRAPH + ".remove_vertex", remove_vertex)
