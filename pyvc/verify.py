"""Specifications over the real code: run the real functions symbolically, state what must hold, collect the
obligations and discharge them.

A `Spec` is a host function taking a `V`.  It builds symbolic inputs by the repository's own constructors,
calls the real functions (through their source text) and states postconditions with `V.ensure`.
A `Contract` is a Spec that can moreover stand for the function at call sites (see contract.py)."""
import time
import traceback
from fractions import Fraction
import z3
from .values import *
from .ops import *
from .core import Ctx, Run
from .interp import Interp
from . import solve


class Out(object):
    """Outcome of a call of the code under verification."""

    def __init__(self, value=None, exc=None, inst=None):
        self.value, self.exc, self.inst = value, exc, inst

    @property
    def ok(self):
        return self.exc is None

    @property
    def excname(self):
        return None if self.exc is None else self.exc.clsname


class V(object):
    def __init__(self, interp, ctx, spec):
        self.it, self.ctx, self.spec = interp, ctx, spec
        self.inputs = {}

    # ------------------------------------------------------------ symbolic inputs
    def _in(self, name, sort):
        c = z3.Const(name, sort)
        self.inputs[name] = c
        return c

    def real(self, name):
        return self._in(name, R)

    def int(self, name, lo=None):
        c = self._in(name, I)
        if lo is not None:
            self.ctx.assume(c >= lo)
        return c

    def bool(self, name):
        return self._in(name, B)

    def u(self, name):
        return self._in(name, U)

    def new(self, qual, *args, **kw):
        return self.it.instantiate(self.it.get_class(qual), list(args), kw)

    def vec(self, name):
        return self.new("solver.geometry:Vector", self.real(name + ".x"), self.real(name + ".y"))

    def list(self, items):
        return self.it.new_list(list(items))

    def dict(self, pairs):
        d = self.ctx.new(DictV(self.it.empty_dict()))
        for k, v in pairs:
            self.it.dict_set(d, k, v)
        return d

    # ------------------------------------------------------------ running the code
    def fn(self, qual):
        return self.it.get_func(qual)

    def call(self, f, *args, **kw):
        """Run the real code.  Anything else than a return or an exception of the program ends the attempt."""
        if isinstance(f, str):
            f = self.it.get_func(f)
        try:
            return Out(self.it.call(f, list(args), kw))
        except PyRaise as e:
            return Out(exc=e)

    def meth(self, o, name, *args, **kw):
        try:
            return Out(self.it.call(self.it.get_attr(o, name), list(args), kw))
        except PyRaise as e:
            return Out(exc=e)

    def cm(self, cls, name, *args, **kw):
        """Call of a class or static method by its qualified class name."""
        try:
            return Out(self.it.call(self.it.get_attr(self.it.get_class(cls), name), list(args), kw))
        except PyRaise as e:
            return Out(exc=e)

    def op(self, op, a, b):
        try:
            return Out(self.it.binop(op, a, b))
        except PyRaise as e:
            return Out(exc=e)

    def attr(self, o, name):
        return self.it.get_attr(o, name)

    def items(self, lv):
        """Host list of the elements of a list of known length."""
        if isinstance(lv, tuple):
            return list(lv)
        if isinstance(lv, ListV) and isinstance(lv.rep, CList):
            return list(lv.rep.items)
        raise Unsupported("list of unknown length where a known one is expected")

    # ------------------------------------------------------------ logic
    def assume(self, f):
        self.ctx.assume(zb(f))

    def split(self, f):
        """Case distinction in the specification."""
        return self.ctx.branch(zb(f))

    def ensure(self, name, goal):
        self.ctx.oblige(name, zb(goal))

    def lemma(self, name, f):
        """State a fact as an obligation of its own, then use it."""
        self.ctx.oblige("lemma: " + name, zb(f))
        self.ctx.assume(zb(f), "ax")

    def identity(self, name, f):
        """A lemma that holds for all reals, proved without the path condition."""
        self.ctx.oblige("lemma: " + name, zb(f), hyps=[])
        self.ctx.assume(zb(f), "ax")

    def derive(self, name, facts, f):
        """A lemma proved from known facts alone (each of them already assumed or proved)."""
        have = set(h.get_id() for h in self.ctx.pc)
        for k in facts:
            if zb(k).get_id() not in have:
                self.ctx.oblige("lemma: premise of " + name, zb(k))
        self.ctx.oblige("lemma: " + name, zb(f), hyps=[zb(k) for k in facts])
        self.ctx.assume(zb(f), "ax")

    def true(self, v):
        """Bool term of a Python truth value."""
        return zb(self.it.truth(v))

    def isbool(self, v):
        return isinstance(v, bool) or is_z3(v) and v.sort() == B

    def r(self, v):
        return self.ctx.real(v)

    def _sqrt(self, t):
        """Specification square root of a nonnegative term."""
        return self.it.sqrt_const(t)

    def use(self, qual, fn):
        """Use the contract of a function at its call sites on this path: fn(v, args in order) gives its
        result (the contract itself is an obligation elsewhere), or MISSING to go into the body."""
        self.it.contracts[qual] = SiteContract(self, fn)

    def cover(self):
        """The precondition assumed so far is satisfiable (vacuity guard)."""
        self.ctx.run.covers.append((self.spec.name, list(self.ctx.pc)))


class SiteContract(object):
    def __init__(self, v, fn):
        self.v, self.fn = v, fn

    def try_apply(self, interp, fn, vals):
        a = fn.node.args
        r = self.fn(self.v, *[vals[x.arg] for x in a.posonlyargs + a.args])
        if r is not MISSING:
            interp.ctx.run.contracts_used.add(fn.qual)
        return r


class Spec(object):
    def __init__(self, prop, name, fn, functions=(), replay=None, note=""):
        self.prop, self.name, self.fn, self.functions, self.note = prop, name, fn, list(functions), note


SPECS = []


def spec(prop, *functions, **kw):
    """Decorator: register a specification of the named real functions for a property."""
    def deco(f):
        SPECS.append(Spec(prop, kw.get("name", f.__name__), f, functions, note=kw.get("note", "")))
        return f
    return deco


class SpecResult(object):
    def __init__(self, spec):
        self.spec = spec
        self.obligations = []
        self.unsupported = None       # reason why the function is out of reach
        self.paths = 0
        self.crash = None
        self.inlined = set()
        self.used = set()
        self.assumed = set()
        self.vacuous = False
        self.time = 0.0
        self.inputs = {}
        self.exits = 0
        self.loops = 0
        self.notes = []


def explore(interp, spec, max_paths=3000, budget=200):
    """Generate the obligations of a specification from the current source text."""
    res = SpecResult(spec)
    run = Run()
    todo = [[]]
    t0 = time.time()
    while todo:
        prefix = todo.pop()
        res.paths += 1
        if res.paths > max_paths:
            res.unsupported = "more than %d paths" % max_paths
            break
        if time.time() - t0 > budget:
            res.unsupported = "path exploration exceeded %d s" % budget
            break
        ctx = Ctx(interp, run, prefix, todo)
        interp.ctx = ctx
        interp.contracts = {}
        ctx.func = spec.name
        v = V(interp, ctx, spec)
        try:
            spec.fn(v)
            res.exits += 1
        except PathEnd:
            pass
        except Unsupported as e:
            if ctx.check() == z3.unsat:
                continue
            res.unsupported = str(e) or "unsupported construct"
            res.notes.append(tb_short())
            break
        except (NeedBranch, PoisonRead, RecursionError) as e:
            res.unsupported = "%s: %s" % (type(e).__name__, e)
            res.notes.append(tb_short())
            break
        except PyRaise as e:
            # an exception outside a guarded call: the construction of the inputs failed
            if ctx.check() == z3.unsat:
                continue
            res.notes.append("raised %s %r %s" % (e.clsname, e.eargs, tb_short()))
            try:
                ctx.oblige("construction of the inputs raises no exception (%s)" % e.clsname, z3.BoolVal(False))
            except PathEnd:
                pass
        except Exception:
            res.crash = traceback.format_exc()
            res.unsupported = "the verifier failed on this code: %s" % res.crash.strip().splitlines()[-1]
            break
        finally:
            res.inputs.update(v.inputs)
    interp.ctx = None
    res.obligations = run.obligations
    res.inlined, res.used, res.assumed = set(run.inlined), set(run.contracts_used), set(run.assumed)
    res.loops = run.loops_proved
    res.covers = run.covers
    res.notes += run.notes
    res.time = time.time() - t0
    return res


def tb_short():
    return traceback.format_exc()[-1500:]
