"""Built-in functions, types and the few external modules the repository uses."""
from fractions import Fraction
import re
import z3
from .values import *
from .positional import PRep
from .ops import *

EXC_TYPES = [BaseException, Exception, ValueError, TypeError, KeyError, IndexError, AttributeError, NameError,
             ZeroDivisionError, NotImplementedError, AssertionError, RuntimeError, StopIteration,
             LookupError, ArithmeticError, OverflowError, ImportError, RecursionError]
def consts_in_(t):
    from .loops import consts_in
    return consts_in(t)


TYPES = [int, float, str, bool, list, dict, set, frozenset, tuple, object, type, slice, complex]


def occurs(c, f):
    """Does the constant occur in the formula?"""
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g.get_id() in seen:
            continue
        seen.add(g.get_id())
        if g.eq(c):
            return True
        todo += [g.body()] if z3.is_quantifier(g) else g.children()
    return False


def occurs(c, f):
    """Does the constant occur in the formula?"""
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g.get_id() in seen:
            continue
        seen.add(g.get_id())
        if g.eq(c):
            return True
        todo += [g.body()] if z3.is_quantifier(g) else g.children()
    return False


class BuiltinsMixin(object):
    def setup_builtins(self):
        b = {}
        for t in EXC_TYPES + TYPES:
            b[t.__name__] = t
        for n in ("len isinstance issubclass hash abs min max sum any all sorted reversed range enumerate zip map "
                  "filter iter next id print getattr hasattr setattr callable round divmod pow repr staticmethod "
                  "classmethod property super vars format ord chr").split():
            f = getattr(self, "b_" + n, None)
            if f is not None:
                b[n] = Builtin(n, f)
        b["NotImplemented"] = NotImplemented
        b["__name__"] = "module"
        b["float"] = float
        self.builtins = b

    # ------------------------------------------------------------ external modules
    def ext_attr(self, o, name):
        full = "%s.%s" % (o.name, name)
        if full in ("math.pi", "numpy.pi"):
            return self.ctx.get_pi()
        if full == "math.e":
            raise Unsupported("math.e")
        if full in ("abc.ABCMeta", "abc.ABC"):
            return ExtAttr(full)
        if full in ("abc.abstractmethod", "abc.abstractproperty"):
            return ExtAttr(full)
        if full == "numpy.linalg":
            return ExtModule("numpy.linalg")
        if full == "functools.reduce":
            return Builtin("reduce", self.b_reduce)
        return ExtAttr(full)

    def call_ext(self, f, args, kwargs):
        n = f.name
        if n.startswith("logging.") or n.startswith("warnings."):
            return OpaqueAny()
        args = [a for a in args]
        if n == "math.sqrt" or n == "numpy.sqrt":
            return self.math_sqrt(args[0], ValueError)
        if n == "math.hypot" and len(args) == 2:
            x, y = self.to_real(args[0]), self.to_real(args[1])
            return self.math_sqrt(self.num_op("+", self.num_op("*", x, x), self.num_op("*", y, y)), ValueError)
        if n in ("math.fabs", "numpy.abs", "numpy.fabs", "numpy.absolute"):
            return self.b_abs(self.to_real(args[0]))
        if n in ("math.radians", "numpy.radians", "numpy.deg2rad"):
            return self.num_op("/", self.num_op("*", self.to_real(args[0]), self.ctx.get_pi()), 180)
        if n in ("math.degrees", "numpy.degrees", "numpy.rad2deg"):
            return self.num_op("*", self.num_op("/", 180, self.ctx.get_pi()), self.to_real(args[0]))
        if n in ("math.cos", "math.sin", "numpy.cos", "numpy.sin"):
            return self.math_trig(n.split(".")[1], self.to_real(args[0]))
        if n in ("math.atan2", "numpy.arctan2"):
            return self.math_atan2(self.to_real(args[0]), self.to_real(args[1]))
        if n in ("math.acos", "numpy.arccos"):
            return self.math_acos(self.to_real(args[0]))
        if n in ("math.copysign",):
            x, y = self.to_real(args[0]), self.to_real(args[1])
            a = self.b_abs(x)
            # the sign of a zero is not representable: copysign(x, 0.0) is taken as +|x|
            return self.merge(self.num_cmp(">=", y, 0), a, self.num_op("-", 0, a))
        if n in ("math.floor", "math.ceil") and isinstance(args[0], NUMERIC):
            import math
            return getattr(math, n.split(".")[1])(args[0])
        if n in ("math.fsum",):
            return self.b_sum(args[0])
        if n in ("math.pow",):
            return self.num_op("**", self.to_real(args[0]), args[1])
        if n in ("math.isclose",) and len(args) == 2:
            a, b = self.to_real(args[0]), self.to_real(args[1])
            rel = kwargs.get("rel_tol", Fraction("1e-9"))
            ab = kwargs.get("abs_tol", 0)
            d = self.b_abs(self.num_op("-", a, b))
            m = self.b_max(self.b_abs(a), self.b_abs(b))
            return Or(self.num_cmp("<=", d, self.num_op("*", rel, m)), self.num_cmp("<=", d, ab))
        if n == "numpy.array":
            return NdArr(self.deep_items(args[0]))
        if n == "numpy.linalg.solve":
            return self.np_solve(args[0], args[1])
        if n in ("numpy.dot",):
            a, b = [self.deep_items(x) for x in args]
            if all(not isinstance(x, list) for x in a + b) and len(a) == len(b):
                return self.b_sum(self.new_list([self.num_op("*", x, y) for x, y in zip(a, b)]))
        if n == "scipy.special.binom" or n == "scipy.special.comb" or n == "math.comb":
            return self.sp_binom(args[0], args[1], n == "math.comb")
        if n == "itertools.combinations":
            return LazyIter("combinations", None, [args[0], kwargs.get("r", args[1] if len(args) > 1 else None)])
        if n == "itertools.product":
            if kwargs.get("repeat", 1) != 1:
                return LazyIter("product", None, [args[0]] * kwargs["repeat"])
            return LazyIter("product", None, args)
        if n == "itertools.permutations" and len(args) == 2:
            return LazyIter("permutations", None, args)
        if n == "itertools.chain":
            return LazyIter("chain", None, args)
        if n == "itertools.chain.from_iterable":
            return LazyIter("chain", None, self.concrete_items(args[0]))
        if n == "functools.reduce":
            return self.b_reduce(*args)
        if n in ("copy.copy",):
            return self.shallow_copy(args[0])
        if n in ("copy.deepcopy",):
            return self.deep_copy(args[0], {})
        if n == "abc.abstractmethod":
            if isinstance(args[0], FuncV):
                args[0].is_abstract = True
            return args[0]
        if n == "collections.OrderedDict":
            return self.call_type(dict, args, kwargs)
        if n == "operator.itemgetter" and len(args) == 1:
            return Builtin("itemgetter", lambda x: self.get_item(x, args[0]))
        raise Unsupported("external function %s" % n)

    def to_real(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, NUMERIC):
            return Fraction(v)
        if is_z3(v) and v.sort() in (I, R):
            return self.ctx.real(v)
        if is_z3(v) and v.sort() == B:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if v is None or isinstance(v, (ListV, tuple, DictV, SetV, Obj)):
            raise PyRaise(TypeError)
        raise Unsupported("real number from %r" % (v,))

    def deep_items(self, v):
        if isinstance(v, NdArr):
            return v.v
        if isinstance(v, ListV) and isinstance(v.rep, PRep):
            return v.rep
        if isinstance(v, (ListV, tuple)):
            return [self.deep_items(x) for x in self.concrete_items(v)]
        return v

    def np_solve(self, A, Bm):
        """numpy.linalg.solve is trusted: the exact solution of a regular system (Cramer's rule);
        LinAlgError when the determinant is zero."""
        a, b = self.deep_items(A), self.deep_items(Bm)
        if isinstance(a, PRep) or isinstance(b, PRep):
            return NdArr(self.pos_solve(a, b))
        n = len(a)
        if n > 3 or any(not isinstance(r, list) or len(r) != n for r in a):
            raise Unsupported("linear system of this shape")
        if len(b) != n:
            raise PyRaise(ValueError)

        mul = lambda *xs: self.b_prod(xs)

        def det(m):
            if len(m) == 1:
                return m[0][0]
            if len(m) == 2:
                return self.num_op("-", mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
            t = 0
            for j in range(len(m)):
                minor = [r[:j] + r[j + 1:] for r in m[1:]]
                c = mul(m[0][j], det(minor))
                t = self.num_op("+" if j % 2 == 0 else "-", t, c)
            return t
        a = [[self.to_real(x) for x in r] for r in a]
        d = det(a)
        if isinstance(d, NUMERIC):
            if d == 0:
                raise PyRaise(self.linalg_error())
        elif self.ctx.branch(d == 0, "singular matrix"):
            raise PyRaise(self.linalg_error())
        cols = [[self.to_real(b[i]) for i in range(n)]] if not isinstance(b[0], list) else \
            [[self.to_real(b[i][k]) for i in range(n)] for k in range(len(b[0]))]
        out = []
        for c in cols:
            out.append([self.num_op("/", det([r[:j] + [c[i]] + r[j + 1:] for i, r in enumerate(a)]), d)
                        for j in range(n)])
        if not isinstance(b[0], list):
            return NdArr(out[0])
        return NdArr([[out[k][i] for k in range(len(out))] for i in range(n)])

    def linalg_error(self):
        return ValueError           # LinAlgError is a ValueError

    def b_prod(self, xs):
        r = 1
        for x in xs:
            r = self.num_op("*", r, x)
        return r

    def sp_binom(self, n, k, exact=False):
        """Trusted: the binomial coefficient, an integer, for k = 0..3."""
        if not isinstance(k, int) or not 0 <= k <= 3:
            raise Unsupported("binomial coefficient")
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, int):
            import math
            r = math.comb(n, k) if n >= 0 else None
            return r if exact else Fraction(r)
        n = self.int_term(n) if not (is_z3(n) and n.sort() == R) else n
        if n.sort() == R:
            raise Unsupported("binomial of a real")
        c = self.ctx.cached("binom%d" % k, [n], lambda: self.ctx.const("binom", I))
        self.ctx.assume_once(("binom", k, c.sexpr()), {
            0: c == 1, 1: c == n, 2: 2 * c == n * (n - 1), 3: 6 * c == n * (n - 1) * (n - 2)}[k])
        return c if exact else z3.ToReal(c)

    # ------------------------------------------------------------ real functions
    def math_sqrt(self, x, exc, power=False):
        x = self.to_real(x)
        if isinstance(x, Fraction):
            if x < 0:
                raise PyRaise(exc)
            import math
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            x = self.ctx.real(x)
        elif self.ctx.branch(x < 0, "square root of a negative number"):
            raise PyRaise(exc)
        return self.sqrt_const(x)

    def sqrt_const(self, x):
        new = []

        def make():
            s = self.ctx.const("sqrt", R)
            new.append(s)
            return s
        s = self.ctx.cached("sqrt", [x], make)
        if new:
            self.ctx.axiom(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
            for (y,), r in self.ctx.note_pair("sqrt", (x,), s):
                self.ctx.axiom(z3.Implies(x == y, s == r))
        return s

    def math_trig(self, which, x):
        if isinstance(x, Fraction) and x == 0:
            return Fraction(1) if which == "cos" else Fraction(0)
        x = self.ctx.real(x)
        new = []
        self.ctx.abstract("trig")

        def make():
            c, s = self.ctx.const("cos", R), self.ctx.const("sin", R)
            new.append((c, s))
            return (c, s)
        c, s = self.ctx.cached("trig", [x], make)
        if new:
            self.ctx.axiom(c * c + s * s == 1)
            for (y,), (c2, s2) in self.ctx.note_pair("trig", (x,), (c, s)):
                self.ctx.axiom(z3.Implies(x == y, z3.And(c == c2, s == s2)))
                self.ctx.axiom(z3.Implies(x == -y, z3.And(c == c2, s == -s2)))
        return c if which == "cos" else s

    def math_acos(self, x):
        if self.ctx.branch(Or(self.num_cmp("<", x, -1), self.num_cmp(">", x, 1)), "acos domain"):
            raise PyRaise(ValueError)
        x = self.ctx.real(x)
        pi = self.ctx.get_pi()
        new = []
        self.ctx.abstract("acos")

        def make():
            new.append(1)
            return self.ctx.const("acos", R)
        a = self.ctx.cached("acos", [x], make)
        if new:
            dom = z3.And(x >= -1, x <= 1)
            self.ctx.axiom(z3.Implies(dom, z3.And(a >= 0, a <= pi,
                                                  (a == 0) == (x == 1), (a == pi) == (x == -1),
                                                  (a < pi / 2) == (x > 0), (a == pi / 2) == (x == 0))))
            for (y,), b in self.ctx.note_pair("acos", (x,), a):
                d2 = z3.And(dom, y >= -1, y <= 1)
                self.ctx.axiom(z3.Implies(d2, z3.And((x == y) == (a == b), (x < y) == (a > b))))
        return a

    def math_atan2(self, y, x):
        y, x = self.ctx.real(y), self.ctx.real(x)
        pi = self.ctx.get_pi()
        new = []
        self.ctx.abstract("atan2")

        def make():
            new.append(1)
            return self.ctx.const("atan2", R)
        a = self.ctx.cached("atan2", [y, x], make)
        if new:
            self.ctx.axiom(z3.And(a >= -pi, a <= pi,
                                  (a == 0) == z3.And(y == 0, x >= 0), (a == pi) == z3.And(y == 0, x < 0),
                                  z3.And(a > 0, a < pi) == (y > 0), (a < 0) == (y < 0),
                                  (a == pi / 2) == z3.And(y > 0, x == 0),
                                  (a == -pi / 2) == z3.And(y < 0, x == 0)))
            for (y2, x2), b in self.ctx.note_pair("atan2", (y, x), a):
                self.ctx.axiom(z3.Implies(z3.And(y == y2, x == x2), a == b))
        return a

    # ------------------------------------------------------------ built-in functions
    def b_len(self, c):
        return self.length(c)

    def length(self, c):
        if isinstance(c, (tuple, str)):
            return len(c)
        if isinstance(c, ListV):
            return len(c.rep.items) if isinstance(c.rep, CList) else c.rep.len
        if isinstance(c, SetV):
            return self.card(c.rep, c.rep.mem, c.rep.elems, c.rep.ekind)
        if isinstance(c, DictV):
            r = c.rep
            return self.card(r, r.dom, r.keys, r.kkind)
        if isinstance(c, KeysView):
            return self.length(c.d)
        if isinstance(c, RangeV):
            n = self.num_op("-", c.hi, c.lo)
            if c.step != 1:
                if isinstance(n, int) and isinstance(c.step, int):
                    return len(range(c.lo, c.hi, c.step))
                raise Unsupported("length of a stepped range")
            return self.merge(self.num_cmp(">", n, 0), n, 0)
        if isinstance(c, NdArr):
            return len(c.v)
        if isinstance(c, Obj):
            if c.cls.lookup("__len__")[0] is not None:
                return self.call_attr(c, "__len__", [])
            raise PyRaise(TypeError)
        if isinstance(c, (LazyIter, GenExp)) or is_num(c) or c is None:
            raise PyRaise(TypeError)
        if is_u(c):
            return self.length(self.opaque_container(c))
        raise Unsupported("length of %r" % (c,))

    def card(self, rep, mem, elems, shape):
        """Number of elements of a set: exact for sets with known candidates, otherwise an integer tied to
        the membership predicate for small values and to equal sets."""
        if elems is not None:
            n = 0
            for i, e in enumerate(elems):
                isnew = And(mem(e), *[Not(And(mem(f), self.eq(e, f))) for f in elems[:i]])
                n = self.num_op("+", n, self.merge(isnew, 1, 0))
            return n
        if rep.card is not None and any(rep.card is c for c, *_ in self.ctx.cardlist):
            return rep.card
        shape = shape or SU
        sorts = shape.sorts()
        for c, m2, sh2 in self.ctx.cardlist:
            if sh2 == shape:
                if self.same_set(mem, m2, shape) is True:
                    rep.card = c
                    return c
        n = self.ctx.const("card", I)
        rep.card = n
        un = lambda ts: self.unflatten(shape, ts)
        w = [[self.ctx.const("cw", s) for s in sorts] for _ in range(3)]
        ne = lambda a, b: z3.Or(*[x != y for x, y in zip(a, b)])
        self.ctx.axiom(n >= 0)
        self.ctx.axiom(z3.Implies(n >= 1, zb(mem(un(w[0])))))
        self.ctx.axiom(z3.Implies(n >= 2, zb(And(mem(un(w[1])), ne(w[0], w[1])))))
        self.ctx.axiom(z3.Implies(n >= 3, zb(And(mem(un(w[2])), ne(w[0], w[2]), ne(w[1], w[2])))))
        v = [z3.Const(self.ctx.fresh_name("ce"), s) for s in sorts]
        same = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
        self.ctx.axiom(z3.ForAll(v, z3.Implies(zb(mem(un(v))), z3.And(
            n >= 1, z3.Or(n >= 2, same(v, w[0])),
            z3.Or(n >= 3, same(v, w[0]), same(v, w[1]))))))
        for c, m2, sh2 in self.ctx.cardlist:
            if sh2 == shape:
                # inclusion is monotone, and strict inclusion of finite sets is strict
                x = [z3.Const(self.ctx.fresh_name("ce"), s) for s in sorts]
                all_same = z3.ForAll(x, zb(mem(un(x))) == zb(m2(un(x))))
                for p, a, q, b in ((mem, n, m2, c), (m2, c, mem, n)):
                    d = [self.ctx.const("cd", s) for s in sorts]
                    self.ctx.axiom(z3.Or(z3.And(zb(p(un(d))), z3.Not(zb(q(un(d))))), a < b,
                                         z3.And(a == b, all_same)))
        self.ctx.putattr(self.ctx, "cardlist", self.ctx.cardlist + [(n, mem, shape)])
        return n

    def same_set(self, m1, m2, shape):
        v = [z3.Const("ss!%d" % i, s) for i, s in enumerate(shape.sorts())]
        a, b = m1(self.unflatten(shape, v)), m2(self.unflatten(shape, v))
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a.eq(b)

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            return Or(*[self.b_isinstance(x, u) for u in t])
        if isinstance(x, Poison):
            raise PoisonRead(x)
        if is_u(x):
            name = getattr(t, "name", getattr(t, "__name__", str(t)))
            h = self.ctx.opaque_isa.get(name)
            if h is not None:
                return h(self, x)
            raise Unsupported("isinstance of an opaque value (%s)" % name)
        if isinstance(t, ClassV):
            return isinstance(x, Obj) and x.cls.issub(t)
        if isinstance(t, ExtAttr):
            if t.name in ("collections.abc.Iterable", "collections.abc.Hashable"):
                raise Unsupported("abstract type test")
            if t.name in ("numpy.ndarray",):
                return isinstance(x, NdArr)
            if t.name in ("numbers.Number", "numbers.Real"):
                return is_num(x) or isinstance(x, bool)
            if isinstance(x, (Obj,)):
                return False
            raise Unsupported("isinstance %s" % t.name)
        if not isinstance(t, type):
            raise PyRaise(TypeError)
        if t is object:
            return True
        if t is bool:
            return isinstance(x, bool) or is_z3(x) and x.sort() == B
        if t is int:
            return isinstance(x, int) or is_z3(x) and x.sort() in (I, B)
        if t is float:
            return isinstance(x, Fraction) or is_z3(x) and x.sort() == R
        if t is str:
            return isinstance(x, (str, OpaqueStr))
        if t is slice:
            return isinstance(x, slice)
        if t is list:
            return isinstance(x, ListV)
        if t is tuple:
            return isinstance(x, tuple)
        if t is dict:
            return isinstance(x, DictV)
        if t is set:
            return isinstance(x, SetV) and not x.is_frozenset
        if t is frozenset:
            return isinstance(x, SetV) and x.is_frozenset
        if t is type:
            return isinstance(x, (ClassV, type))
        if isinstance(x, Obj):
            return x.cls.issub(t)
        if isinstance(x, PyRaise):
            return self.exc_matches(x.cls, t)
        return False

    def b_issubclass(self, a, b):
        if isinstance(b, tuple):
            return any(self.b_issubclass(a, x) for x in b)
        if isinstance(a, ClassV):
            return a.issub(b)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return False

    def b_callable(self, x):
        if is_u(x):
            raise Unsupported("callable of an opaque value")
        return isinstance(x, (FuncV, BoundM, Builtin, ClassV, type, ExtAttr)) or getattr(x, "spec_callable", False)

    def b_hash(self, x):
        return self.py_hash(x)

    def py_hash(self, x):
        """Hash values: uninterpreted, equal for equal values."""
        if isinstance(x, Obj):
            h, _ = x.cls.lookup("__hash__")
            if h is not None:
                return self.call_attr(x, "__hash__", [])
            e, _ = x.cls.lookup("__eq__")
            if e is not None:
                raise PyRaise(TypeError, ("unhashable",))
            return z3.Function("u_hash", U, I)(self.ctx.obj_uconst(x))
        self.hashable(x)
        if is_z3(x) and x.sort() == I or isinstance(x, int) and not isinstance(x, bool):
            return z3.Function("int_hash", I, I)(self.int_term(x))
        if is_u(x) or isinstance(x, (str, bool)) or x is None:
            return z3.Function("u_hash", U, I)(self.to_u(x))
        if isinstance(x, Fraction) or is_z3(x) and x.sort() == R:
            return z3.Function("r_hash", R, I)(self.ctx.real(x))
        if isinstance(x, tuple):
            h = z3.IntVal(len(x))
            f = z3.Function("tuple_hash", I, I, I)
            self.ctx.abstract("hash of tuples")
            for y in x:
                h = f(h, self.int_term(self.py_hash(y)))
            return h
        if isinstance(x, SetV):
            return self.set_hash(x.rep)
        if isinstance(x, (ClassV, FuncV, type)):
            return z3.Function("u_hash", U, I)(z3.Const("C_" + getattr(x, "name", str(x)), U))
        raise Unsupported("hash of %r" % (x,))

    def set_hash(self, rep):
        h = self.ctx.const("sethash", I)
        for other, h2 in list(self.ctx.sethashes):
            c = self.set_eq(rep, other)
            self.ctx.axiom(z3.Implies(zb(c), h == h2))
        self.ctx.putattr(self.ctx, "sethashes", self.ctx.sethashes + [(rep, h)])
        return h

    def b_id(self, x):
        return self.ctx.const("id", I)

    def b_super(self, cls, o):
        return SuperV(cls, o)

    def b_abs(self, x):
        if isinstance(x, Obj):
            return self.call_attr(x, "__abs__", [])
        if isinstance(x, NUMERIC):
            return abs(x)
        if is_z3(x) and x.sort() in (I, R):
            return z3.If(x >= 0, x, -x)
        if is_u(x):
            return z3.Function("u_abs", U, U)(x)
        if x is None or isinstance(x, (str, OpaqueStr, tuple, ListV)):
            raise PyRaise(TypeError)
        raise Unsupported("abs")

    def _minmax(self, op, args, kwargs):
        key = kwargs.pop("key", None)
        default = kwargs.pop("default", MISSING)
        if kwargs or key is not None:
            raise Unsupported("min/max with key")
        items = self.concrete_items(args[0]) if len(args) == 1 else list(args)
        if not items:
            if default is not MISSING:
                return default
            raise PyRaise(ValueError)
        r = items[0]
        for x in items[1:]:
            if not (is_num(x) and is_num(r)):
                raise Unsupported("min/max of %r" % (x,))
            r = self.merge(self.num_cmp("<" if op == "min" else ">", x, r), x, r)
        return r

    def b_min(self, *args, **kw):
        return self._minmax("min", args, kw)

    def b_max(self, *args, **kw):
        return self._minmax("max", args, kw)

    def b_round(self, x, n=None):
        x = self.to_real(x)
        if n is not None and not isinstance(n, int):
            raise Unsupported("round")
        if isinstance(x, Fraction):
            return round(x, n) if n is not None else round(x)
        f = z3.Function("round_%s" % n, R, R)
        return f(self.ctx.real(x)) if n is not None else z3.ToInt(f(self.ctx.real(x)))

    def b_divmod(self, a, b):
        return (self.num_op("//", a, b), self.num_op("%", a, b))

    def b_pow(self, a, b):
        return self.binop("**", a, b)

    def b_sum(self, c, start=0):
        if isinstance(c, RangeV) and c.step == 1 and not (isinstance(c.lo, int) and isinstance(c.hi, int)):
            lo, hi = self.int_term(c.lo), self.int_term(c.hi)
            return self.num_op("+", start, z3.If(hi > lo, ((hi - 1) * hi - (lo - 1) * lo) / 2, z3.IntVal(0)))
        it = self.iter_spec_or_items(c)
        if isinstance(it, list):
            r = start
            for x in it:
                r = self.binop("+", r, x)
            return r
        if getattr(it, "pos", False):
            return self.pos_sum(it, start)
        return self.symbolic_sum(c, start)

    def b_reduce(self, f, c, *init):
        items = self.concrete_items(c)
        if init:
            r = init[0]
        else:
            if not items:
                raise PyRaise(TypeError)
            r = items.pop(0)
        for x in items:
            r = self.call(f, [r, x])
        return r

    def b_any(self, c):
        return self.quantified(c, False)

    def b_all(self, c):
        return self.quantified(c, True)

    def b_sorted(self, c, key=None, reverse=False):
        items = None
        try:
            items = self.concrete_items(c)
        except Unsupported:
            pass
        if items is not None:
            if all(isinstance(x, NUMERIC) for x in items) and key is None:
                return self.new_list(sorted(items, reverse=bool(reverse)))
            if len(items) <= 1:
                return self.new_list(items)
        # some ordering of the same elements (comparison assumed possible only where Python's would be)
        raise Unsupported("sorting of symbolic values")

    def b_reversed(self, c):
        if isinstance(c, RangeV) and isinstance(c.lo, int) and isinstance(c.hi, int):
            return self.new_list(list(reversed(range(c.lo, c.hi, c.step))))
        if isinstance(c, (ListV, tuple)):
            try:
                return self.new_list(list(reversed(self.concrete_items(c))))
            except Unsupported:
                pass
        if isinstance(c, ListV):
            s = self.slist(c)
            return self.ctx.new(ListV(SList(s.len, lambda i: s.at(self.num_op("-", self.num_op("-", s.len, 1), i)),
                                            s.mem, s.nodup, s.ekind)))
        raise Unsupported("reversed")

    def b_range(self, *a):
        for x in a:
            if not (isinstance(x, int) or is_z3(x) and x.sort() == I):
                if is_real(x) or x is None:
                    raise PyRaise(TypeError)
                raise Unsupported("range of %r" % (x,))
        if len(a) == 1:
            return RangeV(0, a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        if a[2] == 0:
            raise PyRaise(ValueError)
        return RangeV(a[0], a[1], a[2])

    def b_enumerate(self, c, start=0):
        return LazyIter("enumerate", start, [c])

    def b_zip(self, *cs, **kw):
        if kw.get("star"):
            return LazyIter("zipstar", None, list(cs))
        return LazyIter("zip", None, list(cs))

    def b_map(self, f, *cs):
        return LazyIter("map", f, list(cs))

    def b_filter(self, f, c):
        return LazyIter("filter", f, [c])

    def b_iter(self, c):
        if isinstance(c, (LazyIter, GenExp)):
            return c
        return LazyIter("iter", None, [c])

    def b_next(self, it, *default):
        if isinstance(it, (LazyIter, GenExp)):
            if isinstance(it, LazyIter) and it.kind == "gen":
                raise Unsupported("next of a generator")
            if getattr(it, "consumed", False):
                raise Unsupported("second element of an iterator")
            src = it
            found = []

            class Found(Exception):
                pass
            # first element only
            r = self.first_element(src)
            it.consumed = True
            if r is MISSING:
                if default:
                    return default[0]
                raise PyRaise(StopIteration)
            return r
        if isinstance(it, Obj) and it.cls.lookup("__next__")[0] is not None:
            return self.call_attr(it, "__next__", [])
        raise PyRaise(TypeError)

    def b_print(self, *a, **k):
        for x in a:
            self.py_str(x)

    def b_getattr(self, o, name, *default):
        if not isinstance(name, str):
            raise Unsupported("getattr")
        try:
            return self.get_attr(o, name)
        except PyRaise as e:
            if default and e.cls is AttributeError:
                return default[0]
            raise

    def b_hasattr(self, o, name):
        if is_u(o) and name not in self.ctx.opaque_attrs and name != "__name__":
            raise Unsupported("hasattr of an opaque value")
        try:
            self.get_attr(o, name)
            return True
        except PyRaise as e:
            if e.cls is AttributeError:
                return False
            raise

    def b_setattr(self, o, name, v):
        self.set_attr(o, name, v)

    def b_repr(self, x):
        return self.py_repr(x)

    def b_format(self, x, spec=""):
        return self.format_value(x, spec)

    # ------------------------------------------------------------ strings
    def py_str(self, x):
        if isinstance(x, (str, OpaqueStr)):
            return x
        if isinstance(x, (bool, int)) or x is None:
            return str(x)
        if isinstance(x, Obj):
            if x.cls.issub(BaseException):
                return OpaqueStr()
            if x.cls.lookup("__str__")[0] is not None:
                return self.str_result(self.call_attr(x, "__str__", []), x)
            return self.py_repr(x)
        return self.py_repr(x)

    def str_result(self, r, x):
        if not isinstance(r, (str, OpaqueStr)):
            if is_u(r):
                raise Unsupported("__str__ returning an opaque value")
            raise PyRaise(TypeError, ("__str__ returned non-string",))
        if isinstance(r, str):
            return r
        return OpaqueStr(r.parts)

    def py_repr(self, x):
        if isinstance(x, str):
            return repr(x)
        if isinstance(x, (bool, int)) or x is None:
            return repr(x)
        if isinstance(x, OpaqueStr):
            return OpaqueStr(x.parts if len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == "text" else ())
        if isinstance(x, Obj):
            if x.cls.lookup("__repr__")[0] is not None:
                return self.str_result(self.call_attr(x, "__repr__", []), x)
            return OpaqueStr()
        if isinstance(x, (ListV, tuple)):
            rep = x if isinstance(x, tuple) else x.rep
            if isinstance(rep, (CList, tuple)):
                items = rep if isinstance(rep, tuple) else rep.items
                return self.str_concat(["["] + [self.py_repr(y) for y in items] + ["]"])
            self.render_all(x)
            return OpaqueStr((self.each_part(x),))
        if isinstance(x, (SetV, DictV, KeysView)):
            self.render_all(x)
            return OpaqueStr((self.each_part(x),))
        if is_z3(x) or isinstance(x, Fraction):
            return OpaqueStr((x,))
        if isinstance(x, (FuncV, BoundM, Builtin, ClassV, type, ModuleV, LazyIter, GenExp, RangeV, OpaqueAny, NdArr,
                          ExtAttr)):
            return OpaqueStr()
        raise Unsupported("text of %r" % (x,))

    def render_all(self, c):
        """Text of every element of a symbolic container (only opaque or plain elements)."""
        if isinstance(c, KeysView):
            c = c.d
        rep = c.rep
        if isinstance(rep, SDict):
            if rep.keys is not None:
                for k in rep.keys:
                    self.py_repr(k)
                    v = rep.val(k)
                    if not isinstance(v, (SDict, SList, SSet, CList)):
                        self.py_repr(v)
                return
            ks = rep.kkind or SU
            k = self.fresh_value(ks, "rk")
            self.py_repr(k)
            v = rep.val(k)
            if isinstance(v, SDict):
                v = v.val(self.fresh_value(v.kkind or SU, "rk"))
            self.py_repr(v) if not isinstance(v, (SList, CList, SSet)) else None
            return
        if isinstance(rep, SSet) and rep.elems is not None:
            for e in rep.elems:
                self.py_repr(e)
            return
        if rep.ekind is not None:
            self.py_repr(self.fresh_value(rep.ekind, "rk"))

    def each_part(self, c):
        """The text of a container: that of its elements as they are now."""
        if isinstance(c, KeysView):
            c = c.d
        now = type(c)(c.rep)

        def mem(x):
            try:
                return zb(self.contains(now, x))
            except Unsupported:
                return z3.BoolVal(False)
        return ("ment", mem)

    def text_mentions(self, s, x):
        """A condition under which the text contains the text of the object x, by what is known of its making."""
        text = z3.Function("u_text", U, U)
        no = z3.BoolVal(False)

        def vague():
            # the text may well be there
            self.ctx.abstract("text that is not followed")
            return no

        def over(bound, cond, t, aim):
            # some values of the bound names meet the conditions and make t the wanted thing
            if not is_z3(t) or t.sort() != U:
                return no
            for b in bound:
                if b.eq(t):
                    return some([c for c in bound if not c.eq(b)], z3.substitute(zb(And(*cond)), (b, aim)))
            f = t == aim
            return vague() if any(occurs(c, f) for c in bound) else some(bound, zb(And(*(cond + [f]))))

        def some(bound, f):
            used = [c for c in bound if occurs(c, f)]
            return z3.Exists(used, f) if used else f

        def written(t, bound, cond):
            # the text of a value, several texts in a row, or (by its choice) any text
            if not is_z3(t) or t.sort() != U:
                return vague()
            n = t.decl().name()
            if n == "u_text":
                return over(bound, cond, t.arg(0), x)
            if n == "u_cat":
                return z3.Or(written(t.arg(0), bound, cond), written(t.arg(1), bound, cond))
            return over(bound, cond, t, text(x)) if any(b.eq(t) for b in bound) else vague()

        def part(p, bound, cond):
            if isinstance(p, OpaqueStr):
                return zb(Or(*[part(q, bound, cond) for q in p.parts]))
            if is_z3(p):
                return over(bound, cond, p, x)
            if isinstance(p, (str, int, Fraction)):
                return no
            if not isinstance(p, tuple) or not p:
                return vague()
            if p[0] == "text":
                return written(p[1], bound, cond)
            if p[0] == "ment":
                return some(bound, zb(And(*(cond + [p[1](x)]))))
            if p[0] == "each":
                _, it, e, val = p
                return part(val, bound + list(e), cond + [zb(it.mem(*e))])
            return vague()
        return part(s, [], []) if isinstance(s, OpaqueStr) else no

    def str_concat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        out = []
        for p in parts:
            if isinstance(p, OpaqueStr):
                out += list(p.parts)
            elif isinstance(p, str):
                out.append(p)
        r = OpaqueStr(tuple(out))
        return r

    def format_value(self, v, spec=""):
        if isinstance(v, Obj) and v.cls.lookup("__format__")[0] is not None:
            return self.call_attr(v, "__format__", [spec])
        s = self.py_str(v)
        if spec:
            if not isinstance(spec, str):
                raise Unsupported("format specification")
            t = spec[-1]
            if t in "fegEGF%":
                if not (is_num(v) or isinstance(v, bool)):
                    if is_u(v):
                        raise PyRaise(ValueError, ("format code for an arbitrary object",))
                    raise PyRaise(ValueError)
                return OpaqueStr((v,))
            if t in "dxobXc":
                if not (isinstance(v, int) or is_z3(v) and v.sort() == I):
                    raise PyRaise(ValueError)
                return OpaqueStr((v,))
            if t == "s" and not isinstance(v, (str, OpaqueStr)):
                raise PyRaise(TypeError)
            if is_u(v) or isinstance(v, (Obj, ListV, SetV, DictV, tuple)) or v is None:
                raise PyRaise(TypeError, ("unsupported format string",))
            return OpaqueStr() if "." in spec else OpaqueStr((v,))
        return s

    def str_format(self, fmt, args, kwargs):
        if not isinstance(fmt, str):
            raise Unsupported("format of an unknown string")
        import string
        auto = [0]
        return self.str_concat(self._fmt(fmt, args, kwargs, auto))

    def _fmt(self, fmt, args, kwargs, auto):
        import string
        out = []
        try:
            parsed = list(string.Formatter().parse(fmt))
        except ValueError:
            raise PyRaise(ValueError)
        for lit, field, spec, conv in parsed:
            if lit:
                out.append(lit)
            if field is None:
                continue
            m = re.match(r"^(\d*|[A-Za-z_]\w*)((?:\.\w+|\[[^\]]+\])*)$", field)
            if not m:
                raise Unsupported("format field %r" % field)
            name, rest = m.groups()
            if name == "" or name.isdigit():
                i = int(name) if name else auto[0]
                if name == "":
                    auto[0] += 1
                if i >= len(args):
                    raise PyRaise(IndexError, ("format",))
                v = args[i]
            else:
                if name not in kwargs:
                    raise PyRaise(KeyError, (name,))
                v = kwargs[name]
            for a in re.findall(r"\.\w+|\[[^\]]+\]", rest):
                if a[0] == ".":
                    v = self.get_attr(v, a[1:])
                else:
                    k = a[1:-1]
                    v = self.get_item(v, int(k) if k.isdigit() else k)
            if conv == "r":
                v = self.py_repr(v)
            elif conv == "s":
                v = self.py_str(v)
            sp = spec
            if spec and "{" in spec:
                sp = self.str_concat(self._fmt(spec, args, kwargs, auto))
            out.append(self.format_value(v, sp))
        return out

    def percent_format(self, fmt, args):
        specs = re.findall(r"%(?:\((\w+)\))?[#0\- +]*(?:\d+|\*)?(?:\.\d+)?([%a-zA-Z])", fmt)
        convs = [c for n, c in specs if c != "%"]
        if any(n for n, c in specs):
            raise Unsupported("%-format with names")
        if is_u(args) and self.ctx.branch(z3.Function("u_istuple", U, B)(args)):
            # a name that is a tuple is taken for the list of arguments
            raise PyRaise(TypeError, ("format arguments",))
        if isinstance(args, DictV) and not convs:
            return OpaqueStr()
        vals = list(args) if isinstance(args, tuple) else [args]
        if len(vals) != len(convs):
            raise PyRaise(TypeError, ("format arguments",))
        out = [fmt]
        cut = re.search(r"%[#0\- +]*\d*\.\d*[sra]", fmt)
        for c, v in zip(convs, vals):
            if cut and c in "sra":
                self.py_str(v) if c == "s" else self.py_repr(v)
                out.append(OpaqueStr())     # may be cut off
                continue
            if c in "dixXofFeEgG":
                if not (is_num(v) or isinstance(v, bool)):
                    raise PyRaise(TypeError)
                out.append(OpaqueStr((v,)))
            else:
                out.append(self.py_str(v) if c == "s" else self.py_repr(v))
        if all(isinstance(o, str) for o in out) and all(isinstance(v, (str, int)) for v in vals):
            return fmt % tuple(vals)
        return OpaqueStr(tuple(p for o in out for p in (o.parts if isinstance(o, OpaqueStr) else (o,))))

    def str_join(self, sep, c):
        if isinstance(c, (str, OpaqueStr)):
            return OpaqueStr()          # the separator goes between the letters
        it = self.iter_spec_or_items(c)
        if isinstance(it, list):
            for x in it:
                if not isinstance(x, (str, OpaqueStr)):
                    if is_u(x):
                        self.join_needs_str(x)
                    else:
                        raise PyRaise(TypeError, ("join of a non-string",))
            if isinstance(sep, str) and all(isinstance(x, str) for x in it):
                return sep.join(it)
            out = []
            for i, x in enumerate(it):
                if i:
                    out.append(sep)
                out.append(x if isinstance(x, (str, OpaqueStr)) else OpaqueStr((x,)))
            return self.str_concat(out)
        return self.symbolic_join(sep, c)

    def join_needs_str(self, x):
        isstr = z3.Function("u_isstr", U, B)
        if not self.ctx.branch(isstr(x)):
            raise PyRaise(TypeError, ("join of a non-string",))

    # ------------------------------------------------------------ types as constructors
    def call_type(self, t, args, kwargs):
        ctx = self.ctx
        if issubclass(t, BaseException):
            return PyRaise(t, tuple(args))
        if t is object:
            return ctx.new(Obj(self.object_class()))
        if t is float:
            if not args:
                return Fraction(0)
            x = args[0]
            if isinstance(x, str):
                try:
                    return Fraction(repr(float(x)))
                except (ValueError, OverflowError):
                    raise PyRaise(ValueError)
            if is_u(x):
                raise Unsupported("float of an opaque value")
            if isinstance(x, Obj):
                if x.cls.lookup("__float__")[0] is not None:
                    return self.call_attr(x, "__float__", [])
                raise PyRaise(TypeError)
            return self.to_real(x)
        if t is int:
            if not args:
                return 0
            x = args[0]
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return x
            if isinstance(x, Fraction):
                return int(x)
            if is_z3(x) and x.sort() == I:
                return x
            if is_z3(x) and x.sort() == B:
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if is_z3(x) and x.sort() == R:
                y = z3.simplify(x)
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    return x.arg(0)
                k = self.as_integer(x)
                if k is not None:
                    return k
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            if isinstance(x, str):
                try:
                    return int(x)
                except ValueError:
                    raise PyRaise(ValueError)
            if x is None or isinstance(x, (ListV, tuple)):
                raise PyRaise(TypeError)
            raise Unsupported("int of %r" % (x,))
        if t is str:
            return self.py_str(args[0]) if args else ""
        if t is bool:
            return self.truth(args[0]) if args else False
        if t is tuple:
            return tuple(self.concrete_items(args[0])) if args else ()
        if t is list:
            return self.to_list(args[0]) if args else self.new_list([])
        if t in (set, frozenset):
            r = self.to_set(args[0], copy=True) if args else ctx.new(SetV(self.fin_set([])))
            r.is_frozenset = t is frozenset
            return r
        if t is dict:
            d = ctx.new(DictV(self.empty_dict()))
            if args:
                if isinstance(args[0], DictV):
                    d = self.dict_copy(args[0])
                else:
                    def tgt(v):
                        k, x = self.concrete_items(v)
                        self.dict_set(d, k, x)
                    self.iterate(args[0], tgt, lambda: None, key=("dictcall",))
            for k, v in kwargs.items():
                self.dict_set(d, k, v)
            return d
        if t is type and len(args) == 1:
            x = args[0]
            if isinstance(x, Obj):
                return x.cls
            for ty in (bool, int, float, str, list, tuple, dict, set):
                if not is_u(x) and self.b_isinstance(x, ty) is True:
                    return ty
            raise Unsupported("type()")
        if t is slice:
            return slice(*args)
        raise Unsupported("call of type %s" % t.__name__)

    def as_integer(self, x):
        """Integer term equal to a real term built from integers by + - * only."""
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_TO_REAL:
                return x.arg(0)
            if z3.is_rational_value(x):
                f = Fraction(x.numerator_as_long(), x.denominator_as_long())
                return z3.IntVal(int(f)) if f.denominator == 1 else None
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
                cs = [self.as_integer(c) for c in x.children()]
                if any(c is None for c in cs):
                    return None
                r = cs[0]
                for c in cs[1:]:
                    r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
                return r
        return None

    def object_class(self):
        if not hasattr(self, "_object_cls"):
            self._object_cls = ClassV("object", [object], Env(isclass=True), None)
        return self._object_cls

    def type_attr(self, t, name):
        if t is dict and name == "fromkeys":
            def fromkeys(c, v=None):
                d = self.ctx.new(DictV(self.empty_dict()))
                self.iterate(c, lambda k: self.dict_set(d, k, v), lambda: None, key=("fromkeys",))
                return d
            return Builtin("fromkeys", fromkeys)
        if name in ("__init__",):
            return Builtin("init", lambda *a, **k: None)
        return Builtin("%s.%s" % (t.__name__, name),
                       lambda self_, *a, **k: self.call(self.get_attr(self_, name), list(a), k))

    # ------------------------------------------------------------ methods of built-in values
    def builtin_attr(self, o, name):
        if isinstance(o, NdArr):
            if name == "tolist":
                def tl():
                    if isinstance(o.v, PRep):
                        return self.ctx.new(ListV(PRep(o.v.len, o.v.at)))
                    conv = lambda v: self.new_list([conv(x) for x in v]) if isinstance(v, list) else v
                    return conv(o.v)
                return Builtin("tolist", tl)
            if name == "shape":
                v, sh = o.v, []
                while isinstance(v, list):
                    sh.append(len(v))
                    v = v[0] if v else None
                return tuple(sh)
            if name == "T" and o.v and isinstance(o.v[0], list):
                return NdArr([list(r) for r in zip(*o.v)])
            raise Unsupported("array attribute %s" % name)
        if isinstance(o, PyRaise):
            if name == "args":
                return tuple(o.eargs)
            raise Unsupported("exception attribute")
        kinds = ((ListV, "list"), (SetV, "set"), (DictV, "dict"), ((str, OpaqueStr), "str"), (tuple, "tuple"),
                 (slice, "slice"), (KeysView, "keys"))
        for t, k in kinds:
            if isinstance(o, t):
                m = getattr(self, "m_%s_%s" % (k, name.strip("_")), None)
                if m is not None:
                    return Builtin("%s.%s" % (k, name), lambda *a, **kw: self.builtin_method(m, "%s.%s" % (k, name), o, a, kw))
                op = {"__getitem__": self.get_item, "__setitem__": self.set_item, "__delitem__": self.del_item,
                      "__contains__": self.contains, "__len__": self.b_len}.get(name)
                if op is not None and k in ("list", "dict", "tuple", "set") and hasattr({"list": list, "dict": dict, "tuple": tuple, "set": set}[k], name):
                    return Builtin("%s.%s" % (k, name), lambda *a: op(o, *a))
                pytype = {"list": list, "set": set, "dict": dict, "str": str, "tuple": tuple, "slice": slice,
                          "keys": dict}[k]
                if hasattr(pytype, name):
                    raise Unsupported("%s.%s" % (k, name))
                raise PyRaise(AttributeError, (name,))
        if is_num(o) or isinstance(o, bool) or o is None or is_z3(o):
            if hasattr(0.5 if is_real(o) else 1 if o is not None else None, name):
                if name == "is_integer":
                    raise Unsupported("is_integer")
                raise Unsupported("number attribute %s" % name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, (FuncV, Builtin, RangeV, LazyIter, GenExp)):
            raise Unsupported("attribute %s" % name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def builtin_method(self, m, name, o, a, kw):
        if kw.pop("star", False):
            if name not in ("set.union", "set.update"):
                raise Unsupported("symbolic *args of %s" % name)
            out = o
            if name == "set.union":
                out = self.ctx.new(SetV(o.rep))
                out.is_frozenset = o.is_frozenset
            elif o.is_frozenset:
                raise PyRaise(AttributeError)
            for c in a[:-1]:
                self.ctx.setrep(out, self.set_binop("|", out.rep, self.to_set(c).rep))
            self.iterate(a[-1], lambda c: self.ctx.setrep(out, self.set_binop("|", out.rep, self.to_set(c).rep)),
                         lambda: None, key=("star", name))
            return out if name == "set.union" else None
        return m(o, *a, **kw)

    # lists
    def m_list_append(self, l, x):
        self.list_append(l, x)

    def m_list_extend(self, l, c):
        self.list_extend(l, c)

    def list_extend(self, l, c):
        if isinstance(c, DictV) or isinstance(c, (KeysView, SetV, LazyIter, GenExp)):
            c = self.to_list(c)
        if isinstance(c, tuple):
            c = self.new_list(c)
        if isinstance(c, RangeV):
            c = self.to_list(c)
        if not isinstance(c, ListV):
            if is_u(c):
                c = self.opaque_container(c)
            else:
                raise PyRaise(TypeError)
        self.ctx.setrep(l, self.list_concat_rep(l.rep, c.rep))

    def m_list_copy(self, l):
        return self.ctx.new(ListV(l.rep))

    def m_list_insert(self, l, i, x):
        if isinstance(l.rep, CList) and isinstance(i, int):
            it = list(l.rep.items)
            it.insert(i, x)
            self.ctx.setrep(l, CList(it))
            return
        if i == 0:
            self.ctx.setrep(l, self.list_concat_rep(CList([x]), l.rep))
            return
        raise Unsupported("insert")

    def m_list_clear(self, l):
        self.ctx.setrep(l, CList([]))

    def m_list_reverse(self, l):
        self.ctx.setrep(l, self.b_reversed(l).rep)

    def m_list_index(self, l, x):
        if isinstance(l.rep, CList):
            for i, y in enumerate(l.rep.items):
                if self.ctx.branch(self.eq(y, x)):
                    return i
            raise PyRaise(ValueError)
        raise Unsupported("index")

    def m_list_count(self, l, x):
        if isinstance(l.rep, CList):
            n = 0
            for y in l.rep.items:
                n = self.num_op("+", n, self.merge(self.eq(y, x), 1, 0))
            return n
        raise Unsupported("count")

    def m_list_sort(self, l, key=None, reverse=False):
        r = self.b_sorted(l, key, reverse)
        self.ctx.setrep(l, r.rep)

    def m_list_remove(self, l, x):
        if isinstance(l.rep, CList):
            items = l.rep.items
            for i, y in enumerate(items):
                if self.ctx.branch(self.eq(y, x)):
                    self.ctx.setrep(l, CList(items[:i] + items[i + 1:]))
                    return
            raise PyRaise(ValueError)
        r = l.rep
        if not self.ctx.branch(r.mem(x)):
            raise PyRaise(ValueError)
        if self.ctx.check(Not(zb(r.nodup))) != z3.unsat:
            raise Unsupported("remove from a list with possible duplicates")
        self.ctx.setrep(l, self.slist_without(r, x))

    def slist_without(self, r, x):
        """Duplicate-free list r with x removed (order of the rest not tracked)."""
        sh = r.ekind or SU
        mem = lambda y: And(r.mem(y), Not(self.eq(x, y)))
        n = self.num_op("-", r.len, 1)
        out = self.fresh_list_of(mem, sh, True)
        self.ctx.assume(self.int_term(out.len) == self.int_term(n))
        return out

    def m_list_pop(self, l, i=-1):
        if isinstance(l.rep, CList):
            items = l.rep.items
            if not isinstance(i, int):
                raise Unsupported("pop at a symbolic index")
            if not -len(items) <= i < len(items):
                raise PyRaise(IndexError)
            i %= len(items)
            self.ctx.setrep(l, CList(items[:i] + items[i + 1:]))
            return items[i]
        r = l.rep
        if self.ctx.branch(self.num_cmp("<=", r.len, 0)):
            raise PyRaise(IndexError)
        if not isinstance(i, int) or i not in (-1, 0):
            raise Unsupported("pop at a symbolic index")
        sh = r.ekind or SU
        x = self.fresh_value(sh, "pop")
        self.ctx.assume(zb(r.mem(x)))
        vs = [z3.Const(self.ctx.fresh_name("pv"), s) for s in sh.sorts()]
        v = self.unflatten(sh, vs)
        f = self.ctx.func_("rest", *(sh.sorts() + [B]))
        mem = lambda y: f(*self.flatten(y, sh))
        self.ctx.assume(z3.ForAll(vs, zb(And(Implies(f(*vs), r.mem(v)),
                                             Implies(And(r.mem(v), Not(self.eq(v, x))), f(*vs)),
                                             Implies(And(r.nodup, self.eq(v, x)), Not(f(*vs)))))))
        out = self.fresh_list_of(mem, sh, r.nodup)
        self.ctx.assume(self.int_term(out.len) == self.int_term(self.num_op("-", r.len, 1)))
        self.ctx.setrep(l, out)
        return x

    def fresh_list_of(self, mem, sh, nodup=True, base="lst"):
        """A list with exactly the given members (each once when nodup), in some order."""
        sorts = sh.sorts()
        n = self.ctx.const(base + "_len", I)
        ats = [self.ctx.func_(base + "_at", I, s) for s in sorts]
        self.ctx.axiom(n >= 0)
        self.ctx.taint(nodup, n.decl().name(), *[a.name() for a in ats])
        un = lambda ts: self.unflatten(sh, ts)
        w = [self.ctx.const(base + "_w", s) for s in sorts]
        self.ctx.axiom(z3.Implies(n > 0, zb(mem(un(w)))))
        vs = [z3.Const(self.ctx.fresh_name("lv"), s) for s in sorts]
        self.ctx.axiom(z3.ForAll(vs, zb(Implies(mem(un(vs)), n > 0))))
        rep = SList(n, None, mem, nodup, sh)
        state = {}

        def at(i):
            i = self.int_term(i)
            if "ax" not in state or state["ax"] not in self.ctx.noteset:
                key = ("order", n.sexpr())
                state["ax"] = key
                idx = self.list_idx(rep)
                k = z3.Const(self.ctx.fresh_name("li"), I)
                el = [a(k) for a in ats]
                self.ctx.assume_once(key, z3.ForAll([k], zb(Implies(z3.And(k >= 0, k < n), And(
                    mem(un(el)), Implies(nodup, idx(un(el)) == k)))), patterns=[ats[0](k)]))
            return un([a(i) for a in ats])
        rep.at = at
        rep.ats = ats
        rep.base = base
        for a in ats:
            self.ctx.list_axioms[a.name()] = at
        return rep

    def list_idx(self, rep):
        """Position of an element: at(idx(x)) == x for members."""
        if hasattr(rep, "slice_idx"):
            return rep.slice_idx
        if rep.idx is None:
            sh = rep.ekind
            f = self.ctx.func_("idx", *(sh.sorts() + [I]))
            rep.idx_f = f
            if hasattr(rep, "ats"):
                # as old as the list itself
                self.ctx.symbol_parents[f.name()] = [a.name() for a in rep.ats]
                self.ctx.list_axioms[f.name()] = lambda i: self.list_idx(rep)
            self.ctx.taint(rep.nodup, f.name())
            rep.idx = lambda x: f(*self.flatten(x, sh))
        key = ("idx", rep.idx_f.name())
        if key not in self.ctx.noteset:
            sh = rep.ekind
            vs = [z3.Const(self.ctx.fresh_name("iv"), s) for s in sh.sorts()]
            v = self.unflatten(sh, vs)
            i = rep.idx_f(*vs)
            self.ctx.assume_once(key, z3.ForAll(vs, zb(Implies(rep.mem(v), z3.And(
                i >= 0, i < rep.len, *[a(i) == x for a, x in zip(rep.ats, vs)]))), patterns=[i]))
        return rep.idx

    def list_repeat(self, v, n):
        if self.ctx.positional and is_num(v):
            nn = n if self.ctx.check(n < 0) == z3.unsat else z3.If(n > 0, n, z3.IntVal(0))
            return self.plist(nn, lambda i: v, own=True)
        sh = self.shape(v)
        nn = z3.If(n > 0, n, z3.IntVal(0))
        return self.ctx.new(ListV(SList(nn, lambda i: v, lambda x: And(n > 0, self.eq(v, x)), n <= 1, sh)))

    # tuples
    def m_tuple_index(self, t, x):
        return self.m_list_index(self.new_list(t), x)

    def m_tuple_count(self, t, x):
        return self.m_list_count(self.new_list(t), x)

    def m_slice_indices(self, s, n):
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
            return slice(s.start, s.stop, s.step).indices(n)
        raise Unsupported("slice.indices")

    # strings
    def m_str_format(self, s, *a, **k):
        return self.str_format(s, a, k)

    def m_str_join(self, s, c):
        return self.str_join(s, c)

    def _str_native(name):
        def f(self, s, *a, **k):
            if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
                r = getattr(s, name)(*a)
                return self.new_list(r) if isinstance(r, list) else r
            if name in ("startswith", "endswith", "isdigit", "find", "count", "split", "index"):
                raise Unsupported("string analysis")
            # only padding keeps what the string mentions
            return OpaqueStr(s.parts if isinstance(s, OpaqueStr) and name in ("ljust", "rjust") else ())
        return f
    for _n in "strip rstrip lstrip upper lower title replace startswith endswith split ljust rjust capitalize find count".split():
        locals()["m_str_" + _n] = _str_native(_n)
    del _n, _str_native

    # sets
    def m_set_add(self, s, x):
        self.set_add(s, x)

    def set_add(self, s, x):
        if s.is_frozenset:
            raise PyRaise(AttributeError)
        self.hashable(x)
        self.ctx.setrep(s, self.set_with(s.rep, x))

    def set_with(self, r, x):
        x = self.as_element(x)
        ek = self.join_shape(r.ekind, self.shape(x)) if r.ekind is not None else self.shape(x)
        return SSet(lambda y: Or(r.mem(y), self.eq(x, y)), ek, None if r.elems is None else r.elems + (x,))

    def m_set_discard(self, s, x):
        self.hashable(x)
        r = s.rep
        self.ctx.setrep(s, SSet(lambda y: And(r.mem(y), Not(self.eq(x, y))), r.ekind, r.elems))

    def m_set_remove(self, s, x):
        if not self.ctx.branch(s.rep.mem(x)):
            raise PyRaise(KeyError)
        self.m_set_discard(s, x)

    def m_set_pop(self, s):
        if not self.ctx.branch(self.nonempty(s)):
            raise PyRaise(KeyError)
        r = s.rep
        sh = self.set_shape(r)
        x = self.fresh_value(sh, "pop")
        self.ctx.assume(zb(r.mem(x)))
        self.m_set_discard(s, x)
        return x

    def m_set_clear(self, s):
        self.ctx.setrep(s, self.fin_set([]))

    def m_set_copy(self, s):
        r = SetV(s.rep)
        r.is_frozenset = s.is_frozenset
        return self.ctx.new(r)

    def mem_of(self, rep, x):
        """Membership of any value: a value of another class than the elements is in the set iff it equals one of them,
        which is decided with the classes' own comparison."""
        try:
            return rep.mem(x)
        except ShapeMismatch:
            if not isinstance(x, Obj) or rep.ekind is None or rep.ekind.kind != "obj":
                raise
            y = self.fresh_value(rep.ekind, "other")
            if z3simp_(self.eq(y, x)) is False and z3simp_(self.eq(x, y)) is False:
                return False
            raise

    def set_binop(self, op, a, b):
        if op == "|":
            try:
                ek = a.ekind if b.ekind is None else b.ekind if a.ekind is None else self.join_shape(a.ekind, b.ekind)
            except Unsupported:
                ks = []
                for k in (a.ekind, b.ekind):
                    ks += [j for j in (k.args if k.kind == "union" else [k]) if j not in ks]
                if any(k.kind != "obj" for k in ks):
                    raise
                # elements of several classes: only membership can be asked
                return SSet(lambda x: Or(self.mem_of(a, x), self.mem_of(b, x)), Shape("union", ks), None)
            return SSet(lambda x: Or(a.mem(x), b.mem(x)), ek,
                        None if a.elems is None or b.elems is None else tuple(a.elems) + tuple(b.elems))
        if op == "&":
            el = a.elems if a.elems is not None else b.elems
            return SSet(lambda x: And(a.mem(x), b.mem(x)), a.ekind or b.ekind, el)
        if op == "-":
            return SSet(lambda x: And(a.mem(x), Not(b.mem(x))), a.ekind or b.ekind, a.elems)
        return SSet(lambda x: Or(And(a.mem(x), Not(b.mem(x))), And(b.mem(x), Not(a.mem(x)))), a.ekind or b.ekind,
                    None if a.elems is None or b.elems is None else tuple(a.elems) + tuple(b.elems))

    def _setop(op):
        def f(self, s, *cs):
            r = s.rep
            for c in cs:
                r = self.set_binop(op, r, self.to_set(c).rep)
            out = SetV(r)
            out.is_frozenset = s.is_frozenset
            return self.ctx.new(out)
        return f

    def _setupd(op):
        def f(self, s, *cs):
            if s.is_frozenset:
                raise PyRaise(AttributeError)
            for c in cs:
                self.ctx.setrep(s, self.set_binop(op, s.rep, self.to_set(c).rep))
        return f
    m_set_union, m_set_intersection = _setop("|"), _setop("&")
    m_set_difference, m_set_symmetric_difference = _setop("-"), _setop("^")
    m_set_update, m_set_intersection_update, m_set_difference_update = _setupd("|"), _setupd("&"), _setupd("-")
    m_set_symmetric_difference_update = _setupd("^")
    del _setop, _setupd

    def m_set_issubset(self, s, c):
        return self.subset(s.rep, self.to_set(c).rep)

    def m_set_issuperset(self, s, c):
        return self.subset(self.to_set(c).rep, s.rep)

    def m_set_isdisjoint(self, s, c):
        return Not(self.nonempty(self.ctx.new(SetV(self.set_binop("&", s.rep, self.to_set(c).rep)))))

    # dictionaries
    def m_dict_keys(self, d):
        return KeysView(d, "keys")

    def m_dict_values(self, d):
        return KeysView(d, "values")

    def m_dict_items(self, d):
        return KeysView(d, "items")

    def m_dict_get(self, d, k, default=None):
        self.hashable(k)
        r = d.rep
        c = z3simp_(r.dom(k))
        if c is False:
            return default
        if c is True:
            return self.dict_get(d, k)
        v = r.val(k)
        if (is_z3(v) or isinstance(v, (int, str, Fraction)) or v is None) and (
                is_z3(default) or isinstance(default, (int, str, Fraction)) or default is None):
            try:
                return self.merge(c, v, default)
            except Unsupported:
                pass
        if self.ctx.branch(c):
            return self.dict_get(d, k)
        return default

    def m_dict_setdefault(self, d, k, default=None):
        if self.ctx.branch(d.rep.dom(k)):
            return self.dict_get(d, k)
        self.dict_set(d, k, default)
        return default

    def m_dict_pop(self, d, k, *default):
        if not self.ctx.branch(d.rep.dom(k)):
            if default:
                return default[0]
            raise PyRaise(KeyError)
        v = d.rep.val(k)
        if isinstance(v, SDict):
            v = self.ctx.new(DictV(v))
        elif isinstance(v, (CList, SList)):
            v = self.ctx.new(ListV(v))
        self.dict_del(d, k)
        return v

    def m_dict_update(self, d, *a, **kw):
        for x in a:
            self.dict_update(d, x)
        for k, v in kw.items():
            self.dict_set(d, k, v)

    def dict_update(self, d, o):
        if isinstance(o, DictV):
            r, q = d.rep, o.rep
            if q.keys is not None and len(q.keys) <= 8:
                for k in q.keys:
                    if self.ctx.branch(q.dom(k)):
                        self.dict_set(d, k, self.dict_get(o, k))
                return
            if isinstance(q.vkind, tuple) and q.vkind[0] == "dict":
                raise Unsupported("update with nested dictionaries")
            self.ctx.setrep(d, SDict(lambda x: Or(r.dom(x), q.dom(x)),
                                     lambda x: q.val(x) if r.keys is not None and not r.keys else
                                     self.merge(q.dom(x), q.val(x), r.val(x)),
                                     q.kkind or r.kkind, q.vkind or r.vkind, None))
            return

        def tgt(v):
            k, x = self.concrete_items(v)
            self.dict_set(d, k, x)
        self.iterate(o, tgt, lambda: None, key=("dictupdate",))

    def m_dict_copy(self, d):
        return self.dict_copy(d)

    def dict_copy(self, d):
        r = d.rep
        if isinstance(r.vkind, tuple) and r.vkind[0] == "dict" and (r.keys is None or r.keys):
            raise Unsupported("shallow copy of a dictionary of dictionaries (shared inner dictionaries)")
        return self.ctx.new(DictV(SDict(r.dom, r.val, r.kkind, r.vkind, r.keys)))

    def m_dict_clear(self, d):
        for h in d.handles:
            self.ctx.putattr(h, "stale", True)
        self.ctx.setrep(d, self.empty_dict())

    def m_dict_popitem(self, d):
        if not self.ctx.branch(self.nonempty(d)):
            raise PyRaise(KeyError)
        k = self.fresh_value(d.rep.kkind or SU, "pop")
        self.ctx.assume(zb(d.rep.dom(k)))
        v = self.m_dict_pop(d, k)
        return (k, v)

    def m_keys_isdisjoint(self, v, c):
        return self.m_set_isdisjoint(self.to_set(v), c)

    # ------------------------------------------------------------ subscripts
    def get_item(self, o, k):
        if isinstance(o, DictV):
            self.hashable(k)
            if not self.ctx.branch(o.rep.dom(k), "key present"):
                raise PyRaise(KeyError, (k,))
            return self.dict_get(o, k)
        if isinstance(o, (ListV, tuple, NdArr)):
            items = o if isinstance(o, tuple) else o.v if isinstance(o, NdArr) else \
                o.rep.items if isinstance(o.rep, CList) else None
            if isinstance(k, slice):
                return self.get_slice(o, items, k)
            if isinstance(k, bool):
                k = int(k)
            if is_real(k) or isinstance(k, (str, tuple)) or k is None:
                raise PyRaise(TypeError)
            if items is not None and isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyRaise(IndexError)
                r = items[k]
                return NdArr(r) if isinstance(o, NdArr) and isinstance(r, list) else r
            if k == -1 and isinstance(k, int) and isinstance(o, ListV) and getattr(o.rep, "added", None):
                return o.rep.added[-1]
            if isinstance(k, int) or is_z3(k) and k.sort() == I:
                rep = self.slist_rep(CList(items)) if items is not None else o.rep
                n = rep.len
                if isinstance(k, int) and k < 0:
                    k = self.num_op("+", n, k)
                elif is_z3(k):
                    if self.ctx.branch(k < 0, "negative index"):
                        k = self.num_op("+", n, k)
                if not self.ctx.branch(And(self.num_cmp(">=", k, 0), self.num_cmp("<", k, n)), "index in range"):
                    raise PyRaise(IndexError)
                return self.pos_elem(o, rep, k) if isinstance(rep, PRep) and isinstance(o, ListV) else self.stored(rep.at(k))
            raise Unsupported("list index %r" % (k,))
        if isinstance(o, Obj):
            if o.cls.lookup("__getitem__")[0] is not None:
                return self.call_attr(o, "__getitem__", [k])
            raise PyRaise(TypeError)
        if isinstance(o, str) and isinstance(k, (int, slice)):
            try:
                return o[k]
            except IndexError:
                raise PyRaise(IndexError)
        if isinstance(o, (SetV, KeysView, LazyIter, GenExp)) or is_num(o) or o is None:
            raise PyRaise(TypeError)
        if is_u(o):
            return self.get_item(self.opaque_container(o), k)
        raise Unsupported("subscript of %r" % (o,))

    def stored(self, v):
        if isinstance(v, (CList, SList)):
            v = ListV(v)
            v.frozen = True
        return v

    def get_slice(self, o, items, k):
        lo, hi, st = k.start, k.stop, k.step
        if items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            r = items[slice(lo, hi, st)]
            return tuple(r) if isinstance(o, tuple) else NdArr(r) if isinstance(o, NdArr) else self.new_list(r)
        if isinstance(o, ListV) and st is None and hi is None and (lo is None or isinstance(lo, int) and lo >= 0):
            return self.list_tail(o, lo or 0)
        if isinstance(o, ListV) and st is None and lo is None and hi is None:
            return self.ctx.new(ListV(self.pos_copy(o.rep)))
        if isinstance(o, ListV) and st is None and all(x is None or isinstance(x, int) and not isinstance(x, bool) or
                                                       is_z3(x) and x.sort() == I for x in (lo, hi)):
            return self.list_slice(o, lo, hi)
        raise Unsupported("slice of a symbolic list")

    def list_slice(self, l, lo, hi):
        """Elements lo, lo + 1, ..., hi - 1 of a list without duplicates."""
        r = l.rep
        if isinstance(r, CList):
            r = self.slist_rep(r)
        sh = r.ekind
        src = self.order_list(r.of, r.mem, sh) if hasattr(r, "of") else r
        if r.nodup is not True or sh is None or not hasattr(src, "ats") and not hasattr(src, "slice_idx"):
            raise Unsupported("slice of a symbolic list")
        n = self.int_term(src.len)

        def bound(x, default):
            if x is None:
                return default
            x = self.int_term(x)
            x = z3.If(x < 0, n + x, x)
            return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
        lo, hi = z3.simplify(bound(lo, z3.IntVal(0))), z3.simplify(bound(hi, n))
        src.at(0)
        idx = self.list_idx(src)
        ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        out = SList(ln, lambda i: src.at(self.num_op("+", lo, i)),
                    lambda x: And(src.mem(x), idx(x) >= lo, idx(x) < hi), True, sh)
        out.slice_idx = lambda x: idx(x) - lo
        return self.ctx.new(ListV(out))

    def list_tail(self, l, k):
        r = l.rep
        if k == 0:
            return self.ctx.new(ListV(r))
        n = r.len
        sh = r.ekind or SU
        ln = z3.If(self.int_term(n) > k, self.int_term(n) - k, z3.IntVal(0))
        heads = [r.at(i) for i in range(k)]
        # one tail for each list, wherever it is taken
        tails = r.__dict__.setdefault("tails", {})
        if k not in tails:
            f = z3.Function(self.ctx.fresh_name("tail%d" % k).replace("!", "."), *(sh.sorts() + [B]))
            vs = [z3.Const(self.ctx.fresh_name("tv"), s) for s in sh.sorts()]
            from .loops import consts_in
            parents = consts_in(zb(r.mem(self.unflatten(sh, vs)))) | (consts_in(n) if is_z3(n) else set())
            tails[k] = (f, vs, parents - {v.decl().name() for v in vs})
        f, vs, parents = tails[k]
        self.ctx.symbol_parents[f.name()] = parents
        v = self.unflatten(sh, vs)
        isin = lambda y: f(*self.flatten(y, sh))

        def define(_):
            heq = lambda y: Or(*[And(self.num_cmp(">", n, i), self.eq(h, y)) for i, h in enumerate(heads)])
            for h in heads:
                for t in self.flatten(h, sh):
                    for c in consts_in_(t):
                        if c in self.ctx.list_axioms and c != f.name():
                            self.ctx.list_axioms[c](z3.IntVal(0))
            self.ctx.assume_once(("tail", f.name(), 0), z3.ForAll(vs, zb(And(
                Implies(isin(v), r.mem(v)), Implies(And(r.mem(v), Not(heq(v))), isin(v)),
                Implies(And(r.nodup, heq(v)), Not(isin(v)))))))
            # members of the tail are the elements at positions k, k+1, ...
            self.ctx.assume_once(("tail", f.name(), 1), z3.Implies(ln > 0, zb(isin(r.at(k)))))
            self.ctx.assume_once(("tail", f.name(), 2), z3.ForAll(vs, zb(Implies(isin(v), ln > 0))))
        define(None)
        self.ctx.list_axioms[f.name()] = define
        out = SList(ln, lambda i: r.at(self.num_op("+", i, k)), isin, r.nodup, sh)
        out.tail_of = (l.rep, k)
        return self.ctx.new(ListV(out))

    def set_item(self, o, k, v):
        if isinstance(o, DictV):
            self.dict_set(o, k, v)
            return
        if isinstance(o, ListV):
            if self.ctx.positional and (isinstance(o.rep, PRep) or isinstance(o.rep, CList) and not isinstance(k, int)):
                self.pos_set_item(o, k, v)
                return
            if isinstance(o.rep, CList) and isinstance(k, int):
                items = list(o.rep.items)
                if not -len(items) <= k < len(items):
                    raise PyRaise(IndexError)
                items[k] = v
                self.ctx.setrep(o, CList(items))
                return
            raise Unsupported("assignment to an element of a symbolic list")
        if isinstance(o, Obj):
            if o.cls.lookup("__setitem__")[0] is not None:
                self.call_attr(o, "__setitem__", [k, v])
                return
            raise PyRaise(TypeError)
        if isinstance(o, (tuple, SetV, str)):
            raise PyRaise(TypeError)
        raise Unsupported("item assignment")

    def del_item(self, o, k):
        if isinstance(o, DictV):
            self.hashable(k)
            self.dict_del(o, k)
            return
        if isinstance(o, ListV) and isinstance(o.rep, CList) and isinstance(k, int):
            self.m_list_pop(o, k)
            return
        raise Unsupported("item deletion")

    # ------------------------------------------------------------ copies
    def shallow_copy(self, x):
        if isinstance(x, Obj):
            if x.cls.lookup("__copy__")[0] is not None:
                return self.call_attr(x, "__copy__", [])
            return self.ctx.new(Obj(x.cls, x.slots))
        if isinstance(x, ListV):
            return self.ctx.new(ListV(self.pos_copy(x.rep)))
        if isinstance(x, SetV):
            return self.m_set_copy(x)
        if isinstance(x, DictV):
            return self.dict_copy(x)
        return x

    def deep_copy(self, x, memo):
        if isinstance(x, Obj):
            if id(x) in memo:
                return memo[id(x)]
            o = self.ctx.new(Obj(x.cls))
            memo[id(x)] = o
            for k, v in x.slots.items():
                o.slots[k] = self.deep_copy(v, memo)
            return o
        if isinstance(x, ListV) and isinstance(x.rep, CList):
            return self.new_list([self.deep_copy(v, memo) for v in x.rep.items])
        if isinstance(x, (ListV, SetV)):
            return self.shallow_copy(x)
        if isinstance(x, DictV):
            return self.ctx.new(DictV(x.rep))
        return x


class NdArr(object):
    def __init__(self, v):
        self.v = v


def z3simp_(c):
    if isinstance(c, bool):
        return c
    from .core import has_quant
    if has_quant(c):
        return c
    s = z3.simplify(c)
    return True if z3.is_true(s) else False if z3.is_false(s) else c
