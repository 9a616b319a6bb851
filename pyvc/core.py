"""Path context: path condition, heap trail, fresh symbols, kinds, obligations."""
from fractions import Fraction
import time
import z3
from .values import *
from .ops import NeedBranch

FEAS_MS = 400


class Obligation(object):
    __slots__ = ("name", "hyps", "goal", "where", "status", "backend", "time", "func", "model", "reason",
                 "approx")

    def __init__(self, name, hyps, goal, where="", func=""):
        self.name, self.hyps, self.goal, self.where, self.func = name, hyps, goal, where, func
        self.status = self.backend = self.model = self.reason = None
        self.approx = ()
        self.time = 0.0


class Explorer(object):
    def __init__(self, prefix, todo):
        self.prefix, self.todo, self.pos, self.trace = prefix, todo, 0, []


QUANT = {}


def has_quant(t):
    """Does a quantifier occur in the term?  (Remembered per hash-consed term, which is kept alive.)"""
    i = t.get_id()
    r = QUANT.get(i)
    if r is not None:
        return r[0]
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in QUANT:
            stack.pop()
        elif z3.is_quantifier(x):
            QUANT[i] = (True, x)
            stack.pop()
        else:
            cs = x.children()
            todo = [c for c in cs if c.get_id() not in QUANT]
            if todo:
                stack.extend(todo)
            else:
                QUANT[i] = (any(QUANT[c.get_id()][0] for c in cs), x)
                stack.pop()
    return QUANT[t.get_id()][0]


class Dual(object):
    """Feasibility solver: the quantifier-free facts first, all of them when those do not decide."""

    def __init__(self):
        self.q, self.f = z3.Solver(), z3.Solver()
        for s in (self.q, self.f):
            s.set("timeout", FEAS_MS)
        self.f.set("smt.mbqi", False)     # satisfiable cases are not worth a model search
        self.quant = [0]

    def push(self):
        self.q.push()
        self.f.push()
        self.quant.append(self.quant[-1])

    def pop(self):
        self.q.pop()
        self.f.pop()
        self.quant.pop()

    def add(self, f):
        self.f.add(f)
        if has_quant(f):
            self.quant[-1] += 1
        else:
            self.q.add(f)

    def check(self):
        r = self.q.check()
        if r == z3.unsat or not self.quant[-1]:
            return r
        return self.f.check()


class Run(object):
    """State shared by all paths of one verification run."""

    def __init__(self):
        self.obligations = []
        self.pruned = 0
        self.feas_time = 0.0
        self.paths = 0
        self.inlined = set()
        self.contracts_used = set()
        self.assumed = set()
        self.covers = []
        self.loops_proved = 0
        self.notes = []


class Ctx(object):
    def __init__(self, interp, run, prefix, todo):
        self.interp = interp
        self.run = run
        self.pc = []
        self.pckind = []
        self.solver = Dual()
        self.ex = Explorer(prefix, todo)
        self.trail = []
        self.clock = 0
        self.counter = {}
        self.created = []
        self.uconsts = {}
        self.uconst_list = []
        self.obj_u = {}
        self.cards = {}
        self.sqrt_cache = {}
        self.fnpairs = {}
        self.write_log = None
        self.deckind = "dec"
        self.indet = False
        self.symbol_parents = {}
        self.suppress = 0
        self.depth = 0
        self.where = ""
        self.func = ""
        self.node = None
        self.opaque_attrs = {}
        self.opaque_isa = {}
        self.witness_sets = []
        self.keep_alive = []
        self.loop_depth = 0
        self.pi = None
        self.fn_under_test = None
        self.while_handler = None
        self.for_handler = None
        self.folds = []
        self.noteset = frozenset()
        self.nobranch = 0
        self.modname = None
        self.body_depth = 0
        self.opaque_call = None
        self.opaque_iter = None
        self.cardlist = []
        self.sethashes = []
        self.rounding = False
        self.portable = {}
        self.loop_facts = {}
        self.positional = False
        self.alias_rows = False
        self.pos_open = []
        self.psums = {}
        self.solutions = []
        self.invertible = set()
        self.list_axioms = {}
        self.approx = frozenset()

    # ---------------------------------------------------------------- heap
    def put(self, m, key, val):
        if m.frozen:
            raise Unsupported("mutation of a shared container (%s)" % type(m).__name__)
        self.trail.append((m, "slots", key, m.slots.get(key, MISSING)))
        m.slots[key] = val
        if self.write_log is not None:
            self.write_log[(id(m), key)] = m
            self.keep_alive.append(m)

    def putattr(self, m, attr, val):
        self.trail.append((m, "attr", attr, getattr(m, attr)))
        setattr(m, attr, val)

    def delslot(self, m, key):
        self.trail.append((m, "slots", key, m.slots.get(key, MISSING)))
        del m.slots[key]
        if self.write_log is not None:
            self.write_log[(id(m), key)] = m
            self.keep_alive.append(m)

    def rollback(self, mark, born=None):
        """Undo the writes since the mark; objects made since then keep their final state, which the values stored
        for the path refer to."""
        while len(self.trail) > mark:
            m, kind, key, old = self.trail.pop()
            if born is not None and isinstance(m, Obj) and m.birth > born:
                continue
            if kind == "attr":
                setattr(m, key, old)
            elif old is MISSING:
                m.slots.pop(key, None)
            else:
                m.slots[key] = old

    def new(self, m):
        self.clock += 1
        m.birth = self.clock
        return m

    def setrep(self, m, rep):
        """Replace the content of a list/set/dict cell."""
        if isinstance(m, DictV) and m.stale:
            raise Unsupported("use of a detached inner dictionary")
        if isinstance(m, DictV) and m.owner is not None:
            o, k = m.owner
            old = o.rep
            it = self.interp
            nv = (lambda x, old=old, k=k, rep=rep: it.merge(it.eq(x, k), rep, old.val(x)))
            self.setrep(o, SDict(old.dom, nv, old.kkind, ("dict", rep.kkind, rep.vkind), old.keys))
        elif getattr(m, "parent", None) is not None:
            self.interp.pos_set_row(m, rep)
        else:
            self.put(m, "rep", rep)

    # ---------------------------------------------------------------- symbols
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def symclock(self):
        return dict(self.counter)

    def is_new_symbol(self, name, clock):
        """Was this symbol made after the snapshot?"""
        if name in self.symbol_parents:
            return any(self.is_new_symbol(p, clock) for p in self.symbol_parents[name])
        base, _, n = name.rpartition("!")
        return bool(base) and (not n.isdigit() or int(n) >= clock.get(base, 0))

    def const(self, base, sort):
        c = z3.Const(self.fresh_name(base), sort)
        self.created.append(c)
        return c

    def func_(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    def uconst(self, v):
        if isinstance(v, (bool, int, Fraction)) and v == int(v):
            v = int(v)                  # 1 == 1.0 == True
        key = (type(v).__name__, v)
        if key not in self.uconsts:
            c = z3.Const("K_%s" % (repr(v) if v is not None else "None"), U)
            for d in self.uconst_list:
                self.assume(c != d)
            u = dict(self.uconsts)
            u[key] = c
            self.putattr(self, "uconst_list", self.uconst_list + [c])
            self.putattr(self, "uconsts", u)
        return self.uconsts[key]

    # ---------------------------------------------------------------- logic
    def assume(self, f, kind="fact"):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        f2 = z3.simplify(f) if not has_quant(f) else f
        if z3.is_true(f2):
            return
        if z3.is_false(f2):
            raise PathEnd()
        self.pc.append(f)
        self.pckind.append(kind)
        self.solver.add(f)

    def qcheck(self, e):
        """The quantifier-free facts alone."""
        if has_quant(e):
            return z3.unknown
        t = time.time()
        self.solver.q.push()
        try:
            self.solver.q.add(e)
            return self.solver.q.check()
        finally:
            self.solver.q.pop()
            self.run.feas_time += time.time() - t

    def check(self, *extra):
        t = time.time()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
            self.run.feas_time += time.time() - t
        return r

    def decide(self, n, forced=None):
        if self.nobranch and forced is None:
            raise NeedBranch()
        if self.nobranch:
            return forced
        ex = self.ex
        if ex.pos < len(ex.prefix):
            c = ex.prefix[ex.pos]
        elif forced is not None:
            c = forced
        else:
            c = 0
            for alt in range(n - 1, 0, -1):
                ex.todo.append(ex.trace + [alt])
        ex.trace.append(c)
        ex.pos += 1
        return c

    def branch(self, cond, why=""):
        """Truth of a Bool term on this path (forks when undetermined)."""
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        forced = None
        if self.nobranch or self.ex.pos >= len(self.ex.prefix):
            for how in (self.qcheck, self.check):
                if how(cond) == z3.unsat:
                    forced = 1
                elif how(z3.Not(cond)) == z3.unsat:
                    forced = 0
                if forced is not None:
                    self.run.pruned += 1
                    break
        c = self.decide(2, forced)
        if c == 0:
            self.assume(cond, self.deckind if forced is None else "fact")
            return True
        self.assume(z3.Not(cond), self.deckind if forced is None else "fact")
        return False

    def abstract(self, what, *names):
        """The path now uses a value about which not everything is axiomatised: a counter-model of an obligation
        then refutes nothing.  With names: only when the goal or a decision of the path depends on one of these
        symbols (whatever their axioms leave open, the symbols have a real value in the real execution, so a
        counter-model that does not depend on it is one)."""
        for n in names or (None,):
            if (what, n) not in self.approx:
                self.putattr(self, "approx", self.approx | {(what, n)})

    def taint(self, src, *names):
        """Symbols whose meaning depends on that of an abstracted one."""
        from .loops import consts_in
        if is_z3(src):
            c = consts_in(src)
            for what, n in list(self.approx):
                if n in c:
                    self.abstract(what, *names)

    def abstractions(self, goal=None):
        from .loops import consts_in
        a = {w for w, n in self.approx if n is None}
        if any(n is not None for _, n in self.approx):
            used = set(consts_in(goal)) if is_z3(goal) else set()
            for f, k in zip(self.pc, self.pckind):
                if k != "ax" and is_z3(f):
                    used |= consts_in(f)
            a |= {w for w, n in self.approx if n in used}
        f = a & {"acos", "atan2", "trig"}
        return tuple(sorted(a if len(f) > 1 else a - f))

    def oblige(self, name, goal, hyps=None):
        """Record an obligation under the current path condition, then rely on it."""
        if goal is True:
            goal = z3.BoolVal(True)
        elif goal is False:
            goal = z3.BoolVal(False)
        if not self.suppress:
            o = Obligation(name, list(self.pc) if hyps is None else hyps, goal, self.where, self.func)
            o.approx = self.abstractions(goal)
            self.run.obligations.append(o)
        if z3.is_false(goal):
            raise PathEnd()

    # ---------------------------------------------------------------- nested exploration
    def sub_explore(self, fn, on_path, limit=400):
        """Run fn on every path from the current state; on_path(outcome, decisions, facts, created) sees
        the end state of each before it is rolled back."""
        todo = [[]]
        n = 0
        saved_ex = self.ex
        interned = []
        try:
            while todo:
                prefix = todo.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                self.ex = Explorer(prefix, todo)
                mark, npc, ncr, born = len(self.trail), len(self.pc), len(self.created), self.clock
                self.solver.push()
                try:
                    try:
                        out = fn()
                    except PathEnd:
                        out = None
                    if out is not None:
                        dec = [f for f, k in zip(self.pc[npc:], self.pckind[npc:]) if k == "dec"]
                        facts = [f for f, k in zip(self.pc[npc:], self.pckind[npc:]) if k != "dec"]
                        on_path(out, dec, facts, self.created[ncr:])
                finally:
                    self.solver.pop()
                    del self.pc[npc:]
                    del self.pckind[npc:]
                    interned += [v for v in self.uconsts if v not in interned]
                    self.rollback(mark, born)
        finally:
            self.ex = saved_ex
        for _, v in interned:
            self.uconst(v)

    def assume_once(self, key, f):
        """A definitional axiom, assumed once per path."""
        if key in self.noteset:
            return
        self.putattr(self, "noteset", self.noteset | {key})
        self.axiom(f)

    def axiom(self, f):
        """Assume a fact that holds in every model (a definition of fresh symbols), independent of the
        decisions taken on this path."""
        self.assume(f, "ax")

    def obj_uconst(self, o):
        """Identity of a mutable object as an opaque value."""
        if id(o) not in self.obj_u:
            c = z3.Const("O_%s_%d" % (getattr(getattr(o, "cls", None), "name", type(o).__name__),
                                      len(self.obj_u)), U)
            for d in self.uconst_list:
                self.assume(c != d)
            d = dict(self.obj_u)
            d[id(o)] = c
            self.keep_alive.append(o)
            self.putattr(self, "obj_u", d)
            self.putattr(self, "uconst_list", self.uconst_list + [c])
        return self.obj_u[id(o)]

    def suppress_stale(self, c):
        """True when the keys of a handle and an update certainly differ."""
        return self.check(c) == z3.unsat

    # ---------------------------------------------------------------- real functions
    def real(self, v):
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, (int, Fraction)):
            return z3.RealVal(str(v))
        if is_z3(v) and v.sort() == I:
            return z3.ToReal(v)
        if is_z3(v) and v.sort() == R:
            return v
        raise Unsupported("not a real: %r" % (v,))

    def cached(self, table, key_terms, make):
        """Deterministic per-path cache on simplified argument terms."""
        key = (table,) + tuple(z3.simplify(t, som=True).sexpr() for t in key_terms)
        if key not in self.sqrt_cache:
            val = make()
            d = dict(self.sqrt_cache)
            d[key] = val
            self.putattr(self, "sqrt_cache", d)
        return self.sqrt_cache[key]

    def get_pi(self):
        p = z3.Const("pi", R)
        if self.pi is None:
            self.putattr(self, "pi", p)
            self.assume(z3.And(p > z3.RealVal("3.1415926535"), p < z3.RealVal("3.1415926536")))
        return p

    def note_pair(self, table, args, val):
        """Remember an application of an axiomatised real function; returns earlier applications."""
        old = list(self.fnpairs.get(table, []))
        d = dict(self.fnpairs)
        d[table] = old + [(args, val)]
        self.putattr(self, "fnpairs", d)
        return old
