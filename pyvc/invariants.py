"""Loops with explicit contracts: an invariant over the loop's state, a termination measure, and the frame found
syntactically and checked (every write of the body to anything older than the loop must be to the declared state).

A `LoopContract` names the state by role: `match` finds the mutable cells that play the roles in the environment of
the loop (by what they are, not by what they are called).  The loop is then replaced by three obligations groups:
the invariant holds on entry; the real body, run from an arbitrary state satisfying it, re-establishes it (and
decreases the measure); execution goes on after the loop from an arbitrary state that satisfies it and the negated
condition.  break, return and raise leave from the arbitrary state."""
import ast
import z3
from .values import *
from .ops import *


class LoopContract(object):
    name = "loop"
    kind = "while"
    deterministic_only = False

    def match(self, it, s, env, source=None):
        """roles -> (cell, env name or None), or None when this is another loop."""
        raise NotImplementedError

    def fresh(self, v, role, cell):
        """An arbitrary content for the cell (default: by its class)."""
        return fresh_rep(v, role, cell)

    def inv(self, st, done):
        """[(name, sorts, formula of variables)]; `done`: processed elements (for loops)."""
        return []

    def variant(self, before, after):
        return []

    def bind(self, before, after):
        """Ghost hook after the body."""


def fresh_rep(v, role, cell):
    it, ctx = v.it, v.ctx
    rep = cell.slots.get("rep")
    uu = it.to_u
    if isinstance(cell, ListV):
        f = ctx.func_("i_" + role, U, B)
        return it.fresh_list_of(lambda x: f(uu(x)), SU, ctx.const("i_nd", B), "i_" + role)
    if isinstance(cell, SetV):
        f = ctx.func_("i_" + role, U, B)
        return SSet(lambda x: f(uu(x)), SU, None)
    if isinstance(cell, DictV):
        f, g = ctx.func_("i_dom_" + role, U, B), ctx.func_("i_val_" + role, U, U)
        return SDict(lambda x: f(uu(x)), lambda x: g(uu(x)), SU, SU)
    raise Unsupported("loop state of kind %s" % type(cell).__name__)


def env_cells(env, kinds):
    """Local variables of the function holding a container of the given classes: [(name, cell)], each cell once."""
    out, seen = [], set()
    for n in sorted(env.slots):
        x = env.slots[n]
        if isinstance(x, kinds) and id(x) not in seen:
            seen.add(id(x))
            out.append((n, x))
    return out


class Installed(object):
    """The loop contracts of one specification on one path."""

    def __init__(self, v, contracts):
        self.v, self.contracts = v, contracts
        v.ctx.while_handler = self.while_
        v.ctx.for_handler = self.for_
        self.active = []

    def state(self, roles, env):
        st = {}
        for r, (cell, name) in roles.items():
            c = env.slots.get(name, cell) if name else cell
            if type(c) is not type(cell):
                raise Unsupported("loop state changes its class")
            st[r] = c
        return st

    def reps(self, st):
        return {r: (c.rep if isinstance(c, (ListV, SetV, DictV)) else c) for r, c in st.items()}

    def assigned(self, s):
        return {n.id for b in s.body + s.orelse for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | (
            {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isinstance(s, ast.For) else
            {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)})

    def havoc(self, C, s, env, roles):
        v, ctx = self.v, self.v.ctx
        names = self.assigned(s)
        out = {}
        byname = {}
        for r, (cell, name) in roles.items():
            if name:
                byname[name] = r
            cur = env.slots.get(name, cell) if name else cell
            if isinstance(cur, DictV) and cur.owner is not None:
                raise Unsupported("loop state inside another dictionary")
            ctx.put(cur, "rep", C.fresh(v, r, cur))
            if name and name in names:
                new = type(cur)(None)
                if isinstance(cur, SetV):
                    new.is_frozenset = cur.is_frozenset
                new.slots["rep"] = C.fresh(v, r, cur)
                ctx.new(new)
                ctx.put(env, name, new)
                out[r] = (new, name)
            else:
                out[r] = (cur, name)
        for n in names:
            if n not in byname:
                ctx.put(env, n, Poison("variable %s assigned in a loop" % n))
        return out

    def facts(self, C, reps, done, assume):
        v = self.v
        for name, sorts, fn in C.inv(reps, done):
            vs = [v.ctx.const("q", s) for s in sorts] if not assume else [z3.Const(v.ctx.fresh_name("qv"), s) for s in sorts]
            f = zb(fn(*vs))
            if assume:
                if not vs:
                    v.ctx.axiom(f)
                else:
                    v.ctx.axiom(z3.ForAll(vs, f))
            else:
                v.ctx.oblige("%s: %s" % (C.name, name), f)

    def run(self, C, s, env, roles, step, cond, done0, dstep, dend):
        v, ctx = self.v, self.v.ctx
        st = self.state(roles, env)
        # a counter-model may only show that the invariant does not fit a (correct) rewriting of the loop
        ctx.abstract("loop invariant")
        self.facts_named(C, "on entry", self.reps(st), done0)
        which = ctx.decide(2)
        if which == 0:
            # an arbitrary round
            roles2 = self.havoc(C, s, env, roles)
            clock = ctx.clock
            D = dstep and dstep[0]
            before = self.reps(self.state(roles2, env))
            self.facts(C, before, D, True)
            if cond is not None and not cond():
                raise PathEnd()
            before = self.reps(self.state(roles2, env))
            saved = ctx.write_log
            ctx.write_log = {}
            try:
                r = step()
            finally:
                log = ctx.write_log
                ctx.write_log = saved
                if saved is not None:
                    saved.update(log)
            if r is None or r == ("cont",):
                after_st = self.state(roles2, env)
                ok = {id(c) for c, _ in roles2.values()} | {id(c) for c in after_st.values()}
                names = self.assigned(s)
                for (mid, slot), m in log.items():
                    if m.birth > clock or mid in ok or m is env and slot in names:
                        continue
                    raise Unsupported("the loop changes more than the state its contract names")
                after = self.reps(after_st)
                self.facts_named(C, "kept", after, dstep and dstep[1])
                for name, goal in C.variant(before, after):
                    ctx.oblige("%s: %s" % (C.name, name), zb(goal))
                raise PathEnd()
            return True, r
        roles2 = self.havoc(C, s, env, roles)
        reps = self.reps(self.state(roles2, env))
        self.facts(C, reps, dend, True)
        if cond is not None and cond():
            raise PathEnd()
        return True, None

    def facts_named(self, C, when, reps, done):
        v = self.v
        for name, sorts, fn in C.inv(reps, done):
            vs = [v.ctx.const("q", s) for s in sorts]
            v.ctx.oblige("%s: %s %s" % (C.name, name, when), zb(fn(*vs)))

    def while_(self, it, s, env):
        for C in self.contracts:
            if C.kind != "while":
                continue
            roles = C.match(it, s, env)
            if roles is None:
                continue
            self.v.ctx.run.loops_proved += 1
            return self.run(C, s, env, roles, lambda: it.exec_block(s.body, env),
                            lambda: self.v.ctx.branch(zb(it.eval_cond(s.test, env))), None, None, None)
        return False, None

    def for_(self, it, s, env, source, step):
        from .loops import SKIP
        for C in self.contracts:
            if C.kind != "for":
                continue
            roles = C.match(it, s, env, source)
            if roles is None:
                continue
            ctx = self.v.ctx
            ctx.run.loops_proved += 1
            Df = ctx.func_("i_done", *(source.sorts + [B]))
            es = [ctx.const(source.label, x) for x in source.sorts]
            D = lambda *ts: Df(*ts)
            D1 = lambda *ts: Or(Df(*ts), z3.And(*[a == b for a, b in zip(ts, es)]))
            none = lambda *ts: False
            everything = lambda *ts: zb(source.mem(*ts))

            def go():
                vs = [z3.Const(ctx.fresh_name("qd"), x) for x in source.sorts]
                ctx.axiom(z3.ForAll(vs, z3.Implies(Df(*vs), zb(source.mem(*vs)))))
                ctx.assume(zb(source.mem(*es)))
                if self.v.it.prove(zb(source.nodup)):
                    ctx.assume(z3.Not(Df(*es)))
                x = source.produce(*es)
                if x is SKIP:
                    return None
                return step(x)
            C.source = source
            C.mem = lambda *ts: zb(source.mem(*ts))
            return self.run(C, s, env, roles, go, None, none, (D, D1), everything)
        return False, None


def install(v, *contracts):
    return Installed(v, list(contracts))
