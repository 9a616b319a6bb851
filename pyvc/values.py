"""Value domain of the symbolic executor.

Scalars are native Python constants (None, bool, int, Fraction for floats, str) or z3 terms of sort
Bool, Int, Real or U (an uninterpreted sort of opaque hashable Python objects: variable names, vertices,
methods, edge values).  Containers are mutable cells (`Mut`) whose content is an immutable
representation built from closures, so that a container of unknown size is a function, and state
snapshots cost nothing.
"""
from fractions import Fraction
import itertools
import z3

U = z3.DeclareSort("U")
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The code uses something the verifier cannot express: the function is out of reach (not wrong)."""


class PathEnd(Exception):
    """This path needs no further exploration."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), inst=None):
        Exception.__init__(self, cls_name(cls))
        self.cls, self.eargs, self.inst = cls, tuple(args), inst

    @property
    def clsname(self):
        return cls_name(self.cls)


def cls_name(c):
    return c.__name__ if isinstance(c, type) else getattr(c, "name", str(c))


class Missing(object):
    def __repr__(self):
        return "<missing>"


MISSING = Missing()


class Poison(object):
    """Value of a loop-local variable after a summarised loop."""

    def __init__(self, why):
        self.why = why


class OpaqueStr(object):
    """Some string.  `parts`, in order: literal text, values whose text is in it, ("text", t) for text given as a
    term, ("each", ...) for the texts of the elements of a collection, ("?",) for anything."""

    def __init__(self, parts=()):
        self.parts = tuple(parts) or (("?",),)

    def __repr__(self):
        return "<str>"


class OpaqueAny(object):
    """Result of an external call whose value must not matter."""

    def __repr__(self):
        return "<opaque>"


class Mut(object):
    _n = itertools.count()

    def __init__(self):
        self.slots = {}
        self.birth = 0
        self.frozen = False
        self.name = None


class Env(Mut):
    def __init__(self, parent=None, isclass=False, frozen_names=None):
        Mut.__init__(self)
        self.parent = parent
        self.isclass = isclass
        self.globals_decl = set()
        self.nonlocals = set()
        self.fname = None


class Obj(Mut):
    def __init__(self, cls, fields=None):
        Mut.__init__(self)
        self.cls = cls
        self.slots = dict(fields or {})

    def __repr__(self):
        return "<%s obj>" % self.cls.name


class ListV(Mut):
    def __init__(self, rep):
        Mut.__init__(self)
        self.slots = {"rep": rep}

    @property
    def rep(self):
        return self.slots["rep"]


class SetV(Mut):
    def __init__(self, rep, frozenset_=False):
        Mut.__init__(self)
        self.slots = {"rep": rep}
        self.is_frozenset = frozenset_

    @property
    def rep(self):
        return self.slots["rep"]


class DictV(Mut):
    def __init__(self, rep):
        Mut.__init__(self)
        self.slots = {"rep": rep}
        self.owner = None          # (outer DictV, key) once stored inside another dictionary
        self.handles = []
        self.stale = None

    @property
    def rep(self):
        if self.stale:
            raise Unsupported("use of a dictionary whose place in its owner may have been replaced")
        if self.owner is not None:
            o, k = self.owner
            return o.rep.val(k)
        return self.slots["rep"]


class KeysView(object):
    def __init__(self, d, what="keys"):
        self.d, self.what = d, what


class LazyIter(object):
    """map/filter/zip/enumerate/generator objects: nothing happens until consumed, once."""

    def __init__(self, kind, fn, srcs):
        self.kind, self.fn, self.srcs = kind, fn, srcs
        self.consumed = False


class GenExp(object):
    def __init__(self, node, env):
        self.node, self.env = node, env


class RangeV(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class CList(object):
    """List of known length."""

    def __init__(self, items=()):
        self.items = tuple(items)


class SList(object):
    """List of unknown length: len/at/mem views kept compositionally."""

    def __init__(self, length, at, mem, nodup, ekind, link=False):
        self.len, self.at, self.mem, self.nodup, self.ekind = length, at, mem, nodup, ekind
        self.idx = None


class SSet(object):
    def __init__(self, mem, ekind=None, elems=None):
        self.mem, self.ekind, self.elems = mem, ekind, elems
        self.card = None
        self.order = None


class SDict(object):
    def __init__(self, dom, val, kkind=None, vkind=None, keys=None):
        self.dom, self.val, self.kkind, self.vkind, self.keys = dom, val, kkind, vkind, keys
        self.card = None
        self.order = None


class FuncV(object):
    def __init__(self, node, env, qual, module, cls=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.qual, self.module, self.cls = node, env, qual, module, cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.name = getattr(node, "name", "<lambda>")
        self.is_abstract = False


class BoundM(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class PropertyV(object):
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    def __init__(self, fn):
        self.fn = fn


class ClassM(object):
    def __init__(self, fn):
        self.fn = fn


class ClassV(object):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, ClassV) else [b]):
                if c not in self.mro:
                    self.mro.append(c)

    def lookup(self, attr, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassV) and attr in c.ns.slots:
                return c.ns.slots[attr], c
        return None, None

    def issub(self, other):
        for c in self.mro:
            if c is other or c == other:
                return True
            if isinstance(c, type) and isinstance(other, type) and issubclass(c, other):
                return True
        return False

    def __repr__(self):
        return "<class %s>" % self.name


class SuperV(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ModuleV(object):
    def __init__(self, name, env):
        self.name, self.env = name, env


class ExtModule(object):
    def __init__(self, name):
        self.name = name


class ExtAttr(object):
    def __init__(self, name):
        self.name = name


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_real(v):
    return isinstance(v, Fraction) or (is_z3(v) and v.sort() == R)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool) or (
        is_z3(v) and (v.sort() == R or v.sort() == I))


def is_u(v):
    return is_z3(v) and v.sort() == U
