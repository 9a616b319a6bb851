"""C26: distances and angles two clusters both fix."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.clusterlib import *

RE = "solver.geometric.relation:"


def fixes_distance(kind, mem, extra, p, q):
    return z3.And(p != q, mem(p), mem(q)) if kind == "Rigid" else z3.BoolVal(False)


def fixes_angle(kind, mem, extra, p, q, r):
    d = z3.Distinct(p, q, r)
    if kind == "Hedgehog":
        c, outer = extra
        return z3.And(d, q == c, outer(p), outer(r))
    return z3.And(d, mem(p), mem(q), mem(r))


def has(v, what, s, x):
    """The set of relations has the relation (sets compare their elements with ==)."""
    if not isinstance(s, SetV):
        raise Unsupported("%s is not a set" % what)
    return v.true(v.it.contains(s, x))


def use_relations(v):
    """Relations between distinct points, compared through the contract proved as C28."""
    def points(r, n):
        l = v.attr(r, "points")
        if not isinstance(l, ListV):
            raise Unsupported("the points of a relation are no list")
        return [v.it.to_u(v.it.get_item(l, i)) for i in range(n)]

    def build(v, self, *ps):
        us = [v.it.to_u(p) for p in ps]
        if not v.it.prove(z3.Distinct(*us)):
            raise Unsupported("a relation between points that may be equal")
        return MISSING

    def equal(cls, n):
        c = v.it.get_class(RE + cls)

        def eq(v, self, other):
            if not isinstance(self, Obj) or self.cls is not c or isinstance(other, Obj) and other.cls not in (c, v.it.get_class(RE + ("Angle" if n == 2 else "Distance"))):
                return MISSING
            if not isinstance(other, Obj) or other.cls is not c:
                return False
            a, b = points(self, n), points(other, n)
            ends = z3.Or(z3.And(a[0] == b[0], a[-1] == b[-1]), z3.And(a[0] == b[-1], a[-1] == b[0]))
            return ends if n == 2 else z3.And(a[1] == b[1], ends)
        return eq
    for cls, n in (("Distance", 2), ("Angle", 3)):
        v.use(RE + cls + ".__init__", build)
        v.use(RE + cls + ".__eq__", equal(cls, n))


METHODS = ("common_distances", "common_angles", "common_constraints")


def pair(ka, kb, m, alias=False):
    fns = {"common_distances": [CL + ka + ".common_distances", CL + kb + ".common_distances"],
           "common_angles": [CL + "Cluster.common_angles", CL + "%s.common_angles_%s" % (ka, kb.lower()),
                             CL + "%s.common_angles_%s" % (kb, ka.lower())],
           "common_constraints": [CL + "Cluster.common_constraints"]}[m]

    @spec("C26", *fns, name="%s_of_%s_and_%s" % (m, ka.lower(), "itself" if alias else kb.lower()))
    def s(v):
        a, ma, ea = cluster(v, ka, "a")
        b, mb, eb = (a, ma, ea) if alias else cluster(v, kb, "b")
        v.cover()
        sa, sb = snapshot(v, a), snapshot(v, b)
        p, q, r = v.u("p"), v.u("q"), v.u("r")
        v.assume(z3.Distinct(p, q, r))
        use_relations(v)
        dist, ang = v.new(RE + "Distance", p, q), v.new(RE + "Angle", p, q, r)
        wd = z3.And(fixes_distance(ka, ma, ea, p, q), fixes_distance(kb, mb, eb, p, q))
        wa = z3.And(fixes_angle(ka, ma, ea, p, q, r), fixes_angle(kb, mb, eb, p, q, r))
        no = z3.BoolVal(False)
        d, g = {"common_distances": (wd, no), "common_angles": (no, wa), "common_constraints": (wd, wa)}[m]
        o = v.meth(a, m, b)
        v.ensure("%s never fails" % m, o.ok)
        if o.ok:
            v.ensure("%s: exactly the right distances" % m, has(v, m, o.value, dist) == d)
            v.ensure("%s: exactly the right angles" % m, has(v, m, o.value, ang) == g)
            only_relations(v, m, o.value)
        unchanged(v, a, sa, "common constraints")
        unchanged(v, b, sb, "common constraints")


def only_relations(v, m, s):
    """Every element is a distance or an angle."""
    kinds = kinds_of(s.rep)
    cls = {v.it.get_class(RE + "Distance"), v.it.get_class(RE + "Angle")}
    v.ensure("%s: only distances and angles" % m, all(k.kind == "obj" and k.args[0] in cls for k in kinds))


def kinds_of(rep):
    if rep.ekind is None:
        return []
    return list(rep.ekind.args) if rep.ekind.kind == "union" else [rep.ekind]


for _a in KINDS:
    for _m in METHODS:
        pair(_a, _a, _m, alias=True)
    for _b in KINDS:
        for _m in METHODS:
            pair(_a, _b, _m)
