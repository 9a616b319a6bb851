"""C25: intersections of clusters."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.clusterlib import *


def atleast(v, n, mem):
    """At least n points satisfy mem (n = 2, 3): by witnesses one way, by enumeration the other."""
    xs = [z3.Const(v.ctx.fresh_name("p"), U) for _ in range(n)]
    return z3.Exists(xs, z3.And(z3.Distinct(*xs), *[mem(x) for x in xs]))


def expected(v, a, ka, ma, ea, b, kb, mb, eb):
    """List of (condition, kind, members, centre) in order of the statement; None where no cluster results."""
    shared = lambda x: z3.And(ma(x), mb(x))
    two, three = atleast(v, 2, shared), atleast(v, 3, shared)
    if ka == kb == "Hedgehog":
        (c, oa), (d, ob) = ea, eb
        out = lambda x: z3.And(oa(x), ob(x))
        return z3.And(two, c == d, atleast(v, 2, out)), "Hedgehog", out, c
    if "Hedgehog" in (ka, kb):
        (c, outer), other = (ea, mb) if ka == "Hedgehog" else (eb, ma)
        out = lambda x: z3.And(outer(x), other(x))
        return z3.And(two, other(c), atleast(v, 2, out)), "Hedgehog", out, c
    if ka == kb == "Rigid":
        return two, "Rigid", shared, None
    return z3.And(two, three), "Balloon", shared, None


def check(v, label, o, cond, kind, mem, centre):
    v.ensure(label + " never fails", o.ok)
    if not o.ok:
        return
    r = o.value
    if r is None:
        v.ensure(label + ": no cluster only when there is none", z3.Not(cond))
        return
    v.ensure(label + ": a cluster only when there is one", cond)
    v.ensure(label + " is a %s" % kind.lower(), isinstance(r, Obj) and r.cls is v.it.get_class(CL + kind))
    X = v.ctx.const("X", U)
    v.ensure(label + " has exactly the right points",
             points(v, r.slots["vars"])(X) == (mem(X) if centre is None else z3.Or(mem(X), X == centre)))
    if kind == "Hedgehog":
        v.ensure(label + " has the right centre", v.it.to_u(v.attr(r, "c_var")) == centre)
        v.ensure(label + " has the right outer points", points(v, r.slots["x_vars"])(X) == z3.And(mem(X), X != centre))
    v.ensure(label + " is not marked overconstrained", zb(v.it.eq(v.attr(r, "overconstrained"), False)))


def pair(ka, kb):
    f = {"Rigid": "intersect_rigid", "Balloon": "intersect_balloon", "Hedgehog": "intersect_hedgehog"}

    @spec("C25", CL + "Cluster.intersection", CL + ka + "." + f[kb], CL + kb + "." + f[ka],
          name="%s_%s" % (ka.lower(), kb.lower()))
    def s(v):
        a, ma, ea = cluster(v, ka, "a")
        b, mb, eb = cluster(v, kb, "b")
        v.cover()
        sa, sb = snapshot(v, a), snapshot(v, b)
        want = expected(v, a, ka, ma, ea, b, kb, mb, eb)
        for label, x, y in (("intersection", a, b), ("reversed intersection", b, a)):
            o = v.meth(x, "intersection", y)
            check(v, label, o, *want)
            if o.ok and o.value is not None:
                v.ensure(label + " is a new cluster", o.value is not a and o.value is not b)
                v.ensure(label + " shares no mutable state", not ({id(c) for c in o.value.slots.values() if isinstance(c, Mut)} &
                                                                  {id(c) for q in (a, b) for c in q.slots.values() if isinstance(c, Mut)}))
            unchanged(v, a, sa, label)
            unchanged(v, b, sb, label)


for _i, _a in enumerate(KINDS):
    for _b in KINDS[_i:]:
        pair(_a, _b)


def itself(kind):
    f = {"Rigid": "intersect_rigid", "Balloon": "intersect_balloon", "Hedgehog": "intersect_hedgehog"}

    @spec("C25", CL + "Cluster.intersection", CL + kind + "." + f[kind], name=kind.lower() + "_itself")
    def s(v):
        a, ma, ea = cluster(v, kind, "a")
        v.cover()
        sa = snapshot(v, a)
        o = v.meth(a, "intersection", a)
        check(v, "intersection with itself", o, *expected(v, a, kind, ma, ea, a, kind, ma, ea))
        if o.ok and o.value is not None:
            v.ensure("intersection with itself is a new cluster", o.value is not a)
        unchanged(v, a, sa, "intersection with itself")


for _a in KINDS:
    itself(_a)


def build(kind):
    @spec("C25", CL + kind + ".__init__", CL + "Cluster.__init__", name="build_" + kind.lower())
    def s(v):
        l, mem = sym_list(v, "points")
        cls = v.it.get_class(CL + kind)
        c = v.u("c")
        outer = lambda x: z3.And(mem(x), x != c)
        v.cover()
        from pyvc.verify import Out
        try:
            o = Out(v.it.instantiate(cls, [c, l] if kind == "Hedgehog" else [l], {}))
        except PyRaise as e:
            o = Out(exc=e)
        enough = {"Rigid": z3.BoolVal(True), "Balloon": atleast(v, 3, mem), "Hedgehog": atleast(v, 2, outer)}[kind]
        v.ensure("%s: refused exactly with too few distinct points" % kind, enough if o.ok else z3.Not(enough))
        if not o.ok:
            v.ensure("refused with a ValueError", o.excname == "ValueError")
            return
        X = v.ctx.const("X", U)
        want = z3.Or(mem(X), X == c) if kind == "Hedgehog" else mem(X)
        v.ensure("the cluster has exactly the given points", points(v, o.value.slots["vars"])(X) == want)
        if kind == "Hedgehog":
            v.ensure("the outer points", points(v, o.value.slots["x_vars"])(X) == outer(X))
            v.ensure("the centre", v.it.to_u(v.attr(o.value, "c_var")) == c)
        vl = v.meth(o.value, "var_list")
        v.ensure("the list of points never fails", vl.ok and isinstance(vl.value, ListV))
        if vl.ok:
            s2 = v.it.slist(vl.value)
            v.ensure("the list of points is complete", zb(s2.mem(X)) == want)
            v.ensure("the list of points has no duplicates", zb(s2.nodup))


for _k in KINDS:
    build(_k)
