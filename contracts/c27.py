"""C27: counts of distances and angles."""
import z3
from pyvc.verify import spec
from pyvc.values import *
from pyvc.ops import *
from contracts.clusterlib import *


def counts(kind):
    cls = CL + kind

    @spec("C27", cls + ".n_distances", cls + ".n_angles", CL + "Cluster.n_constraints", cls + ".__init__", name=kind.lower())
    def s(v):
        c, mem, extra = cluster(v, kind, "c")
        v.cover()
        before = snapshot(v, c)
        n = v.it.int_term(v.it.length(c.slots["vars"] if kind != "Hedgehog" else c.slots["x_vars"]))
        # a product of k consecutive integers is divisible by k!
        q, r = v.ctx.const("q", I), v.ctx.const("r", I)
        v.ctx.axiom(z3.And(n == 6 * q + r, r >= 0, r < 6))
        by = [n == 6 * q + r, z3.Or(*[r == i for i in range(6)])]
        for k, f in ((2, n * (n - 1)), (6, n * (n - 1) * (n - 2))):
            for t in (k, 2) if k > 2 else (k,):
                v.ctx.oblige("lemma: divisible by %d" % t, f % t == 0, hyps=by)
                v.ctx.axiom(t * (f / t) == f)
        d, a, t = [v.meth(c, m) for m in ("n_distances", "n_angles", "n_constraints")]
        for nm, o in (("distances", d), ("angles", a), ("constraints", t)):
            v.ensure("counting the %s never fails" % nm, o.ok)
            if not o.ok:
                return
            v.ensure("the number of %s is an integer" % nm, isint(o.value))
        D, A, T = [v.it.int_term(o.value) for o in (d, a, t)]
        if kind == "Rigid":
            v.ensure("n choose 2 distances", 2 * D == n * (n - 1))
        else:
            v.ensure("no distances", D == 0)
        if kind == "Hedgehog":
            v.ensure("k choose 2 angles", 2 * A == n * (n - 1))
        else:
            v.ensure("3 times n choose 3 angles", 2 * A == n * (n - 1) * (n - 2))
        v.ensure("the total is the sum", T == D + A)
        unchanged(v, c, before, "counting")


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool) or is_z3(x) and x.sort() == I


for _k in KINDS:
    counts(_k)
