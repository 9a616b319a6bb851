"""Abstraction of Graph objects (V, E, W) used for loop states, and side conditions proved on the spot."""
import z3
from .values import *
from .ops import *


class ViewsMixin(object):
    # ------------------------------------------------------------ side conditions
    def prove(self, goal, ms=4000):
        """True when the goal follows from the path condition (a side condition of a summary: on failure the
        code is out of reach, never in error)."""
        if goal is True:
            return True
        goal = zb(goal)
        if z3.is_true(goal):
            return True
        fs = list(self.ctx.pc) + [z3.Not(goal)]
        s = z3.Solver()
        s.set("timeout", ms)
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.last_model = s.model()
            return False
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("smt.mbqi", False)
        for f in fs:
            s.add(f)
        if s.check() == z3.unsat:
            return True
        from .inst import ground_instances
        try:
            gi = ground_instances(fs)
        except z3.Z3Exception:
            return False
        s = z3.Solver()
        s.set("timeout", ms)
        for f in gi:
            s.add(f)
        return s.check() == z3.unsat

    def eq_terms(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or is_z3(a) and a.sort() == B:
            return zb(a) == zb(b)
        return a == b

    # ------------------------------------------------------------ views
    def note_view(self, o):
        f, r = o.slots.get("_forward"), o.slots.get("_reverse")
        if isinstance(f, DictV) and isinstance(r, DictV) and f is not r:
            f.view_of = r.view_of = o

    def view_owner(self, m):
        o = getattr(m, "view_of", None)
        if o is not None and (o.slots.get("_forward") is m or o.slots.get("_reverse") is m) and \
                isinstance(o.slots.get("_forward"), DictV) and isinstance(o.slots.get("_reverse"), DictV):
            return o
        return None

    def edge_funcs(self, rep):
        """dom, edge and value functions of a dictionary of dictionaries."""
        def empty(d):
            return d.keys is not None and not d.keys

        def inner(x):
            if empty(rep):
                return None
            v = rep.val(x)
            if isinstance(v, DictV):
                v = v.rep
            if not isinstance(v, SDict):
                raise Unsupported("graph representation")
            return v

        def E(x, y):
            d = inner(x)
            return False if d is None else And(rep.dom(x), d.dom(y))

        def W(x, y):
            d = inner(x)
            if d is None or empty(d):
                return z3.Function("junkW", U, U, U)(x, y)
            return self.to_u(d.val(y))
        return rep.dom, E, W

    def mirror_goal(self, o, X, Y):
        V, E, W = self.edge_funcs(o.slots["_forward"].rep)
        V2, E2, W2 = self.edge_funcs(o.slots["_reverse"].rep)
        e = E(X, Y)
        return And(zb(V(X)) == zb(V2(X)), zb(e) == zb(E2(Y, X)), Implies(e, And(V(X), V(Y), W(X, Y) == W2(Y, X))))

    def read_view(self, o, check=True):
        f, r = o.slots["_forward"].rep, o.slots["_reverse"].rep
        v = getattr(f, "view", None)
        if v is not None and v is getattr(r, "view", None):
            return list(v)
        if check and not (f.keys == () and r.keys == ()):
            X, Y = self.ctx.const("mx", U), self.ctx.const("my", U)
            if not self.prove(self.mirror_goal(o, X, Y)):
                raise Unsupported("the views of a graph differ inside a loop")
        return list(self.edge_funcs(f))

    def write_view(self, o, V, E, W):
        e = lambda x, y: And(V(x), V(y), E(x, y))
        uu = lambda x: self.to_u(x)
        fwd = SDict(lambda x: V(uu(x)), lambda x: SDict(lambda y: e(uu(x), uu(y)), lambda y: W(uu(x), uu(y)), SU, SU), SU,
                    ("dict", SU, SU))
        rev = SDict(lambda x: V(uu(x)), lambda x: SDict(lambda y: e(uu(y), uu(x)), lambda y: W(uu(y), uu(x)), SU, SU), SU,
                    ("dict", SU, SU))
        fwd.view = rev.view = (V, e, W)
        self.ctx.put(o.slots["_forward"], "rep", fwd)
        self.ctx.put(o.slots["_reverse"], "rep", rev)
