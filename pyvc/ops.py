"""Operations on values: equality, truth, arithmetic, merging, containers."""
from fractions import Fraction
import z3
from .values import *


class NeedBranch(Exception):
    """Raised where a decision would be needed while evaluating a merged (non-forking) expression."""


NUMERIC = (int, Fraction)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Shape(object):
    """Structure of a value with its leaf sorts, to flatten values to lists of terms and back."""

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, tuple(args)

    def key(self):
        return (self.kind,) + tuple(a.key() if isinstance(a, Shape) else a for a in self.args)

    def __eq__(self, o):
        return isinstance(o, Shape) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s%s" % (self.kind, list(self.args) if self.args else "")

    def sorts(self):
        if self.kind in SORTS:
            return [SORTS[self.kind]]
        if self.kind == "F":
            return [FS]
        if self.kind == "const":
            return []
        if self.kind in ("tuple", "list"):
            return [s for a in self.args for s in a.sorts()]
        if self.kind == "obj":
            return [s for _, a in self.args[1] for s in a.sorts()]
        raise Unsupported("shape %s has no finite layout" % self.kind)


SORTS = {"U": U, "I": I, "R": R, "B": B, "S": U}
# a frozenset of opaque values, kept by its extension
FS = z3.DeclareSort("FrozenSet")
IN = z3.Function("in", FS, U, B)
SU, SI, SR, SB, SS = Shape("U"), Shape("I"), Shape("R"), Shape("B"), Shape("S")


class OpsMixin(object):
    # ------------------------------------------------------------ frozensets as elements
    def fset_axioms(self):
        """Sets with the same elements are the same."""
        a, b, x = z3.Const("fa", FS), z3.Const("fb", FS), z3.Const("fx", U)
        diff = z3.Function("fs_diff", FS, FS, U)
        d = diff(a, b)
        self.ctx.assume_once(("fset", 0), z3.ForAll([a, b], z3.Or(a == b, IN(a, d) != IN(b, d)), patterns=[diff(a, b)]))

    def fset_term(self, v):
        rep = v.rep
        t = getattr(rep, "fterm", None)
        if t is None:
            sh = self.set_shape(rep)
            if sh != SU:
                raise Unsupported("a set of such sets")
            t = rep.fterm = self.ctx.const("fset", FS)
            rep.fdef = None
        if getattr(rep, "fdef", 0) is None:
            x = z3.Const("fx", U)
            self.ctx.assume_once(("fset", t.decl().name()), z3.ForAll([x], IN(t, x) == zb(rep.mem(x)), patterns=[IN(t, x)]))
        self.fset_axioms()
        return t

    def fset_eq(self, a, b):
        """Equality of two sets as equality of their extensions."""
        a, b = self.fset_term(a), self.fset_term(b)
        diff = z3.Function("fs_diff", FS, FS, U)
        self.ctx.assume_once(("fdiff", a.sexpr(), b.sexpr()), diff(a, b) == diff(a, b))
        d = diff(a, b)
        self.ctx.axiom(z3.Or(a == b, IN(a, d) != IN(b, d)))
        return a == b

    # ------------------------------------------------------------ conversions
    def to_u(self, v):
        if is_z3(v):
            if v.sort() == U:
                return v
            if v.sort() == I:
                f = z3.Function("u_int", I, U)
                g = z3.Function("int_u", U, I)
                self.ctx.assume_once(("u_int", v.sexpr()), g(f(v)) == v)
                return f(v)
            if v.sort() == R:
                f = z3.Function("u_real", R, U)
                g = z3.Function("real_u", U, R)
                self.ctx.assume_once(("u_real", v.sexpr()), g(f(v)) == v)
                return f(v)
            if v.sort() == B:
                return z3.If(v, self.ctx.uconst(True), self.ctx.uconst(False))
        if v is None or isinstance(v, (bool, int, str, Fraction)):
            return self.ctx.uconst(v)
        if isinstance(v, Mut):
            return self.ctx.obj_uconst(v)
        if isinstance(v, OpaqueStr):
            return self.text_term(v)
        raise Unsupported("value %r as an opaque object" % (v,))

    def stable_text(self, s):
        """Equal names may read differently (1 and 1.0): the text of a name is no function of its value."""
        if isinstance(s, OpaqueStr) and any(is_z3(p) and is_u(p) or isinstance(p, Obj) for p in s.parts):
            raise Unsupported("text of a name compared")

    def text_term(self, s):
        """A rendered string as an opaque value: a function of the texts it is made of."""
        text = z3.Function("u_text", U, U)
        cat = z3.Function("u_cat", U, U, U)
        ts = []
        for p in s.parts:
            if isinstance(p, str):
                ts.append(self.ctx.uconst(p))
            elif isinstance(p, tuple) and p[0] == "text":
                ts.append(p[1])
            elif isinstance(p, (int, Fraction, Obj)) or is_z3(p):
                ts.append(text(self.to_u(p)))
            else:
                ts.append(self.ctx.const("txt", U))
        if not ts:
            return self.ctx.const("txt", U)
        r = ts[0]
        for t in ts[1:]:
            r = cat(r, t)
        return r

    def shape(self, v):
        if is_z3(v):
            for k, s in SORTS.items():
                if v.sort() == s:
                    return Shape(k)
        if isinstance(v, OpaqueStr):
            return SS
        if isinstance(v, bool):
            return SB
        if isinstance(v, int):
            return SI
        if isinstance(v, Fraction):
            return SR
        if v is None or isinstance(v, str):
            return SU
        if isinstance(v, tuple):
            return Shape("tuple", [self.shape(x) for x in v])
        if isinstance(v, ListV) and isinstance(v.rep, CList):
            return Shape("list", [self.shape(x) for x in v.rep.items])
        if isinstance(v, Obj):
            return Shape("obj", [v.cls, tuple((k, self.shape(v.slots[k])) for k in sorted(v.slots))])
        if isinstance(v, SetV) and v.is_frozenset and self.set_shape(v.rep) == SU:
            return Shape("F")
        raise Unsupported("value %s in a symbolic collection" % type(v).__name__)

    def join_shape(self, a, b):
        if a == b or b is None:
            return a
        if a is None:
            return b
        if a.kind in SORTS and b.kind in SORTS:
            ks = {a.kind, b.kind}
            if ks == {"I", "R"}:
                return SR
            return SU
        if a.kind == b.kind == "tuple" and len(a.args) == len(b.args):
            return Shape("tuple", [self.join_shape(x, y) for x, y in zip(a.args, b.args)])
        if a.kind == b.kind == "list" and len(a.args) == len(b.args):
            return Shape("list", [self.join_shape(x, y) for x, y in zip(a.args, b.args)])
        if a.kind == b.kind == "obj" and a.args[0] is b.args[0] and \
                [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
            return Shape("obj", [a.args[0], tuple((k, self.join_shape(x, y))
                                                  for (k, x), (_, y) in zip(a.args[1], b.args[1]))])
        raise Unsupported("values of different kinds in one collection (%r, %r)" % (a, b))

    def flatten(self, v, shape=None):
        shape = shape or self.shape(v)
        k = shape.kind
        if k == "U" or k == "S" and isinstance(v, (str, OpaqueStr)):
            return [self.to_u(v)]
        if k == "F" and isinstance(v, SetV):
            return [self.fset_term(v)]
        if k == "I":
            if is_z3(v) and v.sort() == I:
                return [v]
            if isinstance(v, int):
                return [z3.IntVal(int(v))]
        elif k == "R":
            return [self.ctx.real(v)]
        elif k == "B":
            if isinstance(v, bool):
                return [z3.BoolVal(v)]
            if is_z3(v) and v.sort() == B:
                return [v]
        elif k == "tuple" and isinstance(v, tuple) and len(v) == len(shape.args):
            return [t for x, s in zip(v, shape.args) for t in self.flatten(x, s)]
        elif k == "list" and isinstance(v, ListV) and isinstance(v.rep, CList) and \
                len(v.rep.items) == len(shape.args):
            return [t for x, s in zip(v.rep.items, shape.args) for t in self.flatten(x, s)]
        elif k == "obj" and isinstance(v, Obj) and v.cls is shape.args[0]:
            return [t for f, s in shape.args[1] for t in self.flatten(v.slots[f], s)]
        raise ShapeMismatch("%r does not fit %r" % (v, shape))

    def unflatten(self, shape, leaves):
        leaves = list(leaves)

        def go(s):
            if s.kind == "S":
                return OpaqueStr((("text", leaves.pop(0)),))
            if s.kind in SORTS:
                return leaves.pop(0)
            if s.kind == "F":
                t = leaves.pop(0)
                rep = SSet(lambda x: IN(t, self.to_u(x)), SU, None)
                rep.fterm = t
                r = SetV(rep, True)
                r.frozen = True
                return r
            if s.kind == "tuple":
                return tuple(go(a) for a in s.args)
            if s.kind == "list":
                r = ListV(CList([go(a) for a in s.args]))
                r.frozen = True
                return r
            if s.kind == "obj":
                o = Obj(s.args[0], {f: go(a) for f, a in s.args[1]})
                o.frozen = True
                return o
            raise Unsupported("unflatten %s" % s.kind)
        return go(shape)

    def fresh_value(self, shape, base):
        return self.unflatten(shape, [self.ctx.const(base, s) for s in shape.sorts()])

    # ------------------------------------------------------------ truth and equality
    def truth(self, v):
        """bool or Bool term."""
        if isinstance(v, (bool, int, Fraction, str)) or v is None:
            return bool(v)
        if isinstance(v, Poison):
            raise PoisonRead(v)
        if is_z3(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
            return z3.Function("u_truth", U, B)(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (ListV, SetV, DictV)):
            return self.nonempty(v)
        if isinstance(v, KeysView):
            return self.nonempty(v.d)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call_attr(v, "__bool__", []))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call_attr(v, "__len__", []))
            return True
        if isinstance(v, OpaqueStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            t = self.ctx.const("txt_true", B)
            self.ctx.abstract("text", t.decl().name())
            return t
        if isinstance(v, RangeV):
            return self.num_cmp("<", v.lo, v.hi)
        if isinstance(v, (FuncV, BoundM, Builtin, ClassV, LazyIter, GenExp, ExtAttr)):
            return True
        if isinstance(v, type):
            return True
        raise Unsupported("truth of %r" % (v,))

    def nonempty(self, c):
        rep = c.rep
        if isinstance(rep, CList):
            return len(rep.items) > 0
        if isinstance(rep, SSet) and rep.elems is not None:
            return Or(*[rep.mem(e) for e in rep.elems]) if rep.elems else False
        if isinstance(rep, SDict) and rep.keys is not None:
            return Or(*[rep.dom(e) for e in rep.keys]) if rep.keys else False
        n = self.length(c)
        return self.num_cmp(">", n, 0)

    def eq(self, a, b):
        """Python ==, as a bool or Bool term."""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise PoisonRead(a if isinstance(a, Poison) else b)
        if a is b and not isinstance(a, Obj):
            return True
        na = isinstance(a, (bool, int, Fraction, str)) or a is None
        nb = isinstance(b, (bool, int, Fraction, str)) or b is None
        if na and nb:
            return a == b
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            if isinstance(a, (OpaqueStr, str)) and isinstance(b, (OpaqueStr, str)):
                self.ctx.abstract("text")
                return self.text_term(a) == self.text_term(b) if a.__class__ is b.__class__ else self.to_u(a) == self.to_u(b)
        if is_u(a) or is_u(b):
            if isinstance(a, (tuple, ListV, SetV, DictV)) or isinstance(b, (tuple, ListV, SetV, DictV)):
                raise Unsupported("comparison of an opaque value with a container")
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m, _ = x.cls.lookup("__eq__")
                    if m is not None and x is a:
                        return self.as_bool(self.call_attr(x, "__eq__", [y]))
            return self.to_u(a) == self.to_u(b)
        if (is_num(a) or isinstance(a, bool)) and (is_num(b) or isinstance(b, bool)):
            return self.num_cmp("==", a, b)
        if is_z3(a) and a.sort() == B and is_z3(b) and b.sort() == B:
            return a == b
        if is_z3(a) and a.sort() == B and isinstance(b, bool):
            return a if b else z3.Not(a)
        if is_z3(b) and b.sort() == B and isinstance(a, bool):
            return b if a else z3.Not(b)
        if is_z3(a) and a.sort() == B and is_num(b) or is_z3(b) and b.sort() == B and is_num(a):
            f = lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0)) if is_z3(t) and t.sort() == B else t
            return self.num_cmp("==", f(a), f(b))
        if isinstance(a, Obj):
            m, _ = a.cls.lookup("__eq__")
            if m is not None:
                r = self.call_attr(a, "__eq__", [b])
                if r is not NotImplemented:
                    return self.as_bool(r)
            if isinstance(b, Obj):
                m, _ = b.cls.lookup("__eq__")
                if m is not None and b.cls is not a.cls:
                    return self.as_bool(self.call_attr(b, "__eq__", [a]))
            return a is b
        if isinstance(b, Obj):
            m, _ = b.cls.lookup("__eq__")
            if m is not None:
                return self.as_bool(self.call_attr(b, "__eq__", [a]))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListV) and isinstance(b, ListV):
            if isinstance(a.rep, CList) and isinstance(b.rep, CList):
                if len(a.rep.items) != len(b.rep.items):
                    return False
                return And(*[self.eq(x, y) for x, y in zip(a.rep.items, b.rep.items)])
            sa, sb = self.slist(a), self.slist(b)
            for p, q in ((a, b), (b, a)):
                if isinstance(p.rep, CList):
                    q2 = self.slist(q)
                    return And(self.num_cmp("==", q2.len, len(p.rep.items)),
                               *[self.eq(x, q2.at(i)) for i, x in enumerate(p.rep.items)])
            k = z3.Const(self.ctx.fresh_name("ix"), I)
            body = self.eq(sa.at(k), sb.at(k))
            return And(self.num_cmp("==", sa.len, sb.len),
                       z3.ForAll([k], z3.Implies(z3.And(k >= 0, self.num_cmp("<", k, sa.len)), zb(body))))
        if isinstance(a, SetV) and isinstance(b, SetV):
            if getattr(a.rep, "fterm", None) is not None or getattr(b.rep, "fterm", None) is not None:
                if self.set_shape(a.rep) == SU and self.set_shape(b.rep) == SU:
                    return self.fset_eq(a, b)
            return self.set_eq(a.rep, b.rep)
        if isinstance(a, KeysView) and a.what == "keys":
            return self.eq(self.to_set(a), b)
        if isinstance(b, KeysView) and b.what == "keys":
            return self.eq(a, self.to_set(b))
        if isinstance(a, DictV) and isinstance(b, DictV):
            ka, kb = a.rep, b.rep
            if ka.keys is not None and kb.keys is not None:
                ds = [self.eq_opt(ka, kb, k) for k in list(ka.keys) + list(kb.keys)]
                return And(*ds)
            raise Unsupported("comparison of dictionaries")
        if isinstance(a, (ClassV, type, FuncV, ModuleV)) or isinstance(b, (ClassV, type, FuncV, ModuleV)):
            return a is b
        if isinstance(a, (OpaqueStr, OpaqueAny)) or isinstance(b, (OpaqueStr, OpaqueAny)):
            raise Unsupported("comparison of an unknown string")
        conts = (tuple, ListV, SetV, DictV, str, type(None), Fraction, int)
        if isinstance(a, conts + (z3.ExprRef,)) and isinstance(b, conts + (z3.ExprRef,)):
            return False            # values of different built-in types
        raise Unsupported("comparison of %r and %r" % (a, b))

    def eq_opt(self, ka, kb, k):
        da, db = ka.dom(k), kb.dom(k)
        return And(Or(And(da, db), And(Not(da), Not(db))), Implies(da, self.eq(ka.val(k), kb.val(k))))

    def as_bool(self, v):
        t = self.truth(v)
        return t

    def set_eq(self, a, b):
        return And(self.subset(a, b), self.subset(b, a))

    def subset(self, a, b):
        if a.elems is not None:
            return And(*[Implies(a.mem(e), b.mem(e)) for e in a.elems])
        sh = self.set_shape(a)
        vs = [z3.Const(self.ctx.fresh_name("sx"), s) for s in sh.sorts()]
        v = self.unflatten(sh, vs)
        return z3.ForAll(vs, z3.Implies(zb(a.mem(v)), zb(b.mem(v))))

    def set_shape(self, rep):
        if rep.ekind is None:
            return SU
        return rep.ekind

    # ------------------------------------------------------------ numbers
    def num_cmp(self, op, a, b):
        def b2i(t):
            return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if is_z3(t) and t.sort() == B else t
        a, b = b2i(a), b2i(b)
        if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
            return {"==": a == b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "!=": a != b}[op]
        if is_real(a) or is_real(b):
            a, b = self.ctx.real(a), self.ctx.real(b)
        return {"==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                ">=": lambda: a >= b, "!=": lambda: a != b}[op]()

    def num_op(self, op, a, b):
        r = self.num_op_exact(op, a, b)
        if self.ctx.rounding and is_z3(r) and r.sort() == R:
            # floating point: any value near the exact one, with its sign (zero stays zero)
            c = self.ctx.const("fl", R)
            m = z3.If(r >= 0, r, -r)
            self.ctx.axiom(z3.And(z3.Implies(r == 0, c == 0), z3.Implies(r > 0, c >= 0), z3.Implies(r < 0, c <= 0),
                                  c - r <= m / 10 ** 15, r - c <= m / 10 ** 15))
            return c
        return r

    def num_op_exact(self, op, a, b):
        def b2i(t):
            if isinstance(t, bool):
                return int(t)
            return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if is_z3(t) and t.sort() == B else t
        a, b = b2i(a), b2i(b)
        if op == "/":
            if isinstance(b, NUMERIC):
                if b == 0:
                    raise PyRaise(ZeroDivisionError)
            elif self.ctx.branch(b == 0, "division by zero"):
                raise PyRaise(ZeroDivisionError)
            if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
                return Fraction(a) / Fraction(b)
            return self.ctx.real(a) / self.ctx.real(b)
        if op in ("//", "%"):
            if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
                if b == 0:
                    raise PyRaise(ZeroDivisionError)
                return a // b if op == "//" else a % b
            if is_real(a) or is_real(b) or not isinstance(b, int) or b <= 0:
                raise Unsupported("floor division of reals or by a variable")
            return a / z3.IntVal(b) if op == "//" else a % z3.IntVal(b)
        if op == "**":
            if isinstance(a, NUMERIC) and isinstance(b, int):
                return Fraction(a) ** b if b < 0 else a ** b
            if isinstance(b, Fraction) and b.denominator == 1 and b >= 0:
                b = int(b)
                r = self.num_op("**", self.ctx.real(a), b)
                return r
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = self.num_op("*", r, a)
                return r
            if isinstance(b, Fraction) and b == Fraction(1, 2):
                return self.math_sqrt(a, ValueError, power=True)
            if isinstance(b, int) and -2 <= b < 0:
                return self.num_op("/", 1, self.num_op("**", a, -b))
            raise Unsupported("power")
        if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
            return {"+": a + b, "-": a - b, "*": a * b}[op]
        if is_real(a) or is_real(b):
            if op == "*" and (isinstance(a, NUMERIC) and a == 0 or isinstance(b, NUMERIC) and b == 0):
                return Fraction(0)
            if op == "*" and isinstance(a, NUMERIC) and a == 1:
                return self.ctx.real(b)
            if op == "*" and isinstance(b, NUMERIC) and b == 1:
                return self.ctx.real(a)
            if op == "+" and isinstance(a, NUMERIC) and a == 0:
                return self.ctx.real(b)
            if op in "+-" and isinstance(b, NUMERIC) and b == 0:
                return self.ctx.real(a)
            a, b = self.ctx.real(a), self.ctx.real(b)
        elif op == "*" and isinstance(a, int) and a == 1:
            return b
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """Value that is `a` where c holds and `b` elsewhere."""
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if callable(a) and not is_z3(a) and not isinstance(a, (Mut, FuncV)):
            raise Unsupported("merge of functions")
        if isinstance(a, SDict) and isinstance(b, SDict):
            return SDict(lambda x: Or(And(c, a.dom(x)), And(Not(c), b.dom(x))),
                         lambda x: self.merge_lazy(c, a, b, x),
                         a.kkind or b.kkind, a.vkind or b.vkind,
                         None if a.keys is None or b.keys is None else tuple(a.keys) + tuple(b.keys))
        if isinstance(a, SSet) and isinstance(b, SSet):
            return SSet(lambda x: Or(And(c, a.mem(x)), And(Not(c), b.mem(x))), a.ekind or b.ekind,
                        None if a.elems is None or b.elems is None else tuple(a.elems) + tuple(b.elems))
        if isinstance(a, (CList, SList)) and isinstance(b, (CList, SList)):
            if isinstance(a, CList) and isinstance(b, CList) and len(a.items) == len(b.items):
                return CList([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
            sa, sb = self.slist_rep(a), self.slist_rep(b)
            return SList(z3.If(c, self.int_term(sa.len), self.int_term(sb.len)),
                         lambda i: self.merge(c, sa.at(i), sb.at(i)),
                         lambda x: Or(And(c, sa.mem(x)), And(Not(c), sb.mem(x))),
                         Or(And(c, sa.nodup), And(Not(c), sb.nodup)), sa.ekind or sb.ekind)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.slots) == set(b.slots):
            o = Obj(a.cls, {k: self.merge(c, a.slots[k], b.slots[k]) for k in a.slots})
            o.frozen = True
            return o
        if isinstance(a, ListV) and isinstance(b, ListV):
            r = ListV(self.merge(c, a.rep, b.rep))
            r.frozen = True
            return r
        if isinstance(a, SetV) and isinstance(b, SetV):
            r = SetV(self.merge(c, a.rep, b.rep))
            r.frozen = True
            return r
        na = isinstance(a, (bool, int, Fraction, str)) or a is None
        nb = isinstance(b, (bool, int, Fraction, str)) or b is None
        if na and nb and type(a) == type(b) and a == b:
            return a
        if (na or is_z3(a)) and (nb or is_z3(b)):
            sh = self.join_shape(self.shape(a), self.shape(b))
            x, = self.flatten(a, sh)
            y, = self.flatten(b, sh)
            return z3.If(c, x, y)
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def merge_lazy(self, c, a, b, x):
        """Merged dictionary value; a side whose key is certainly absent does not constrain the kind."""
        if a.keys is not None and not a.keys:
            return b.val(x)
        if b.keys is not None and not b.keys:
            return a.val(x)
        return self.merge(c, a.val(x), b.val(x))

    # ------------------------------------------------------------ lists
    def int_term(self, n):
        return z3.IntVal(n) if isinstance(n, int) else n

    def slist(self, lv):
        return self.slist_rep(lv.rep)

    def slist_rep(self, rep):
        if isinstance(rep, SList):
            return rep
        items = rep.items
        ek = None
        for x in items:
            try:
                ek = self.join_shape(ek, self.shape(x)) if ek is not None else self.shape(x)
            except Unsupported:
                ek = None
                break

        def at(i):
            if not items:
                raise Unsupported("element of an empty list")
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = self.merge(self.num_cmp("==", i, j), items[j], r)
            return r
        s = SList(len(items), at, lambda x: Or(*[self.eq(y, x) for y in items]), self.distinct(items), ek)
        s.citems = items
        return s

    def distinct(self, items):
        return And(*[Not(self.eq(items[i], items[j])) for i in range(len(items)) for j in range(i)])

    def list_append(self, lv, v):
        rep = lv.rep
        if isinstance(rep, CList):
            self.ctx.setrep(lv, CList(rep.items + (v,)))
            return
        if hasattr(rep, "added"):
            self.ctx.setrep(lv, type(rep)(rep.added + (v,)))
            return
        self.snapshot_guard(v)
        self.ctx.setrep(lv, self.app_rep(rep, v))

    def app_rep(self, rep, v):
        v = self.as_element(v)
        sh = self.shape(v)
        n = rep.len
        r = SList(self.num_op("+", n, 1), lambda i: self.merge(self.num_cmp("==", i, n), v, rep.at(i)),
                  lambda x: Or(rep.mem(x), self.eq(v, x)), And(rep.nodup, Not(rep.mem(v))),
                  self.join_shape(rep.ekind, sh))
        base, tail = getattr(rep, "app", (rep, ()))
        r.app = (base, tail + (v,))
        return r

    def list_concat_rep(self, a, b):
        if isinstance(a, CList) and isinstance(b, CList):
            return CList(a.items + b.items)
        if self.ctx.positional:
            return self.pos_concat(a, b)
        if isinstance(a, CList) and not a.items:
            return b
        if isinstance(b, CList):
            r = a
            for v in b.items:
                r = self.app_rep(r, v)
            return r
        sa, sb = self.slist_rep(a), self.slist_rep(b)
        n = sa.len
        ek = self.join_shape(sa.ekind, sb.ekind)

        def at(i):
            if isinstance(a, CList) and not a.items:
                return sb.at(i)
            return self.merge(self.num_cmp("<", i, n), sa.at(i), sb.at(self.num_op("-", i, n)))
        if ek is not None:
            vs = [z3.Const(self.ctx.fresh_name("cx"), s) for s in ek.sorts()]
            v = self.unflatten(ek, vs)
            disj = z3.ForAll(vs, zb(Not(And(sa.mem(v), sb.mem(v)))))
        else:
            disj = True
        r = SList(self.num_op("+", n, sb.len), at, lambda x: Or(sa.mem(x), sb.mem(x)),
                  And(sa.nodup, sb.nodup, disj), ek)
        r.cat = (a, b)
        return r

    # ------------------------------------------------------------ sets and dictionaries
    def fin_set(self, items):
        items = tuple(items)
        ek = None
        for x in items:
            ek = self.join_shape(ek, self.set_elem_shape(x))
        return SSet(lambda x: Or(*[self.eq(e, x) for e in items]), ek, items)

    def set_elem_shape(self, x):
        return self.shape(x)

    def empty_dict(self):
        def noval(x):
            raise Unsupported("value of an empty dictionary")
        return SDict(lambda x: False, noval, None, None, ())

    def dict_set(self, d, k, v):
        self.hashable(k)
        rep = d.rep
        if isinstance(v, DictV):
            if v.owner is not None or v.stale:
                raise Unsupported("a dictionary stored in two places")
            vv = v.slots["rep"]
            vk = ("dict", vv.kkind, vv.vkind)
        else:
            self.snapshot_guard(v)
            vv = v
            vk = rep.vkind
        for h in d.handles:
            if h.owner is not None and h.owner[0] is d:
                c = self.eq(h.owner[1], k)
                if c is True or c is not False and not self.ctx.suppress_stale(c):
                    if h is not v:
                        self.ctx.putattr(h, "stale", True)
        keys = None if rep.keys is None else rep.keys + (k,)
        known_empty = rep.keys is not None and not rep.keys

        def val(x):
            if known_empty:
                if is_z3(vv) and is_z3(x):
                    # the value at an absent key is arbitrary
                    return z3.If(zb(self.eq(x, k)), vv, z3.Function("junk_%s_%s" % (x.sort(), vv.sort()), x.sort(), vv.sort())(x))
                return vv
            c = self.eq(x, k)
            return self.merge(c, vv, rep.val(x)) if c is not True else vv
        nd = SDict(lambda x: Or(rep.dom(x), self.eq(x, k)), val, rep.kkind, vk, keys)
        nd.set_key = k
        self.ctx.setrep(d, nd)
        if isinstance(v, DictV):
            self.ctx.putattr(v, "owner", (d, k))
            self.ctx.putattr(d, "handles", d.handles + [v])

    def dict_del(self, d, k):
        rep = d.rep
        if not self.ctx.branch(rep.dom(k), "key present"):
            raise PyRaise(KeyError, (k,))
        for h in d.handles:
            if h.owner is not None and h.owner[0] is d:
                c = self.eq(h.owner[1], k)
                if c is not False:
                    self.ctx.putattr(h, "stale", True)
        self.ctx.setrep(d, SDict(lambda x: And(rep.dom(x), Not(self.eq(x, k))), rep.val, rep.kkind,
                                 rep.vkind, rep.keys))

    def dict_get(self, d, k):
        """Value for a key known to be present."""
        rep = d.rep
        v = rep.val(k)
        if isinstance(v, SDict):
            h = DictV(None)
            h.slots = {}
            h.owner = (d, k)
            self.ctx.putattr(d, "handles", d.handles + [h])
            return h
        if isinstance(v, (CList, SList)):
            r = ListV(v)
            r.frozen = True
            return r
        if isinstance(v, SSet):
            r = SetV(v)
            r.frozen = True
            return r
        return v

    def as_element(self, v):
        """The value to keep in a symbolic collection: an object compared by its own __eq__ is kept by value, so that
        the collection stays meaningful when the construction of the object is rolled back."""
        if isinstance(v, Obj) and not v.frozen and v.cls.lookup("__eq__")[0] is not None:
            try:
                sh = self.shape(v)
                r = self.unflatten(sh, self.flatten(v, sh))
            except Unsupported:
                return v
            self.ctx.putattr(v, "frozen", "stored")
            for x in v.slots.values():
                self.snapshot_guard(x)
            return r
        return v

    def snapshot_guard(self, v):
        """A mutable value stored in a symbolic collection is stored by value: later mutation is not
        expressible, so it is frozen."""
        if isinstance(v, (ListV, SetV)) and not v.frozen:
            self.ctx.putattr(v, "frozen", "stored")
            if isinstance(v, ListV) and isinstance(v.rep, CList):
                for x in v.rep.items:
                    self.snapshot_guard(x)
        if isinstance(v, DictV) and not v.frozen:
            self.ctx.putattr(v, "frozen", "stored")
        if isinstance(v, tuple):
            for x in v:
                self.snapshot_guard(x)

    def hashable(self, k):
        self.stable_text(k)
        if isinstance(k, (ListV, DictV)) or isinstance(k, SetV) and not k.is_frozenset:
            raise PyRaise(TypeError, ("unhashable",))
        if isinstance(k, tuple):
            for x in k:
                self.hashable(x)
        if isinstance(k, Obj):
            h, _ = k.cls.lookup("__hash__")
            e, ec = k.cls.lookup("__eq__")
            if e is not None and h is None:
                raise PyRaise(TypeError, ("unhashable",))


class ShapeMismatch(Unsupported):
    pass


class PoisonRead(Exception):
    def __init__(self, poison):
        Exception.__init__(self, str(poison.why))
        self.poison = poison
