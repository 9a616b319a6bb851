"""Iteration: unrolling, automatic exact summaries of for-loops over symbolic collections, comprehensions.

A for-loop over a collection S of unknown size is replaced by a closed form F: for every set D of already
processed elements, F(D) is the state after them.  F is guessed from one symbolic execution of the body and
then *verified* inductively by executing the real body from state F(D) on an arbitrary element e and proving
that it ends in F(D + e); break, return and raise leave from F(D).  A loop whose summary cannot be found or
proved makes the function unsupported (out of reach); it never becomes an assumption.
"""
import ast
import os
from fractions import Fraction
import z3
from .values import *
from .positional import PRep
from .ops import *

SKIP = object()
DEBUG = bool(os.environ.get("PYVC_DEBUG"))


class Iter(object):
    """Symbolic iteration: variables of the given sorts ranging over mem."""

    def __init__(self, sorts, mem, produce, nodup=True, order=None, total=None, src=None, label="e"):
        self.sorts, self.mem, self.produce, self.nodup = sorts, mem, produce, nodup
        self.order, self.total, self.src, self.label = order, total, src or [], label


class LastElem(Poison):
    def __init__(self, it, assign, prev, marker):
        Poison.__init__(self, marker)
        self.it, self.assign, self.prev = it, assign, prev


class Dpred(object):
    """A set of processed elements."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, ts):
        return self.fn(*ts)

    def exists(self, ctx, sorts, body):
        vs = [z3.Const(ctx.fresh_name("d"), s) for s in sorts]
        b = And(self.fn(*vs), body(vs))
        if b is False:
            return False
        return z3.Exists(vs, zb(b))


class DUnion(Dpred):
    def __init__(self, d, e):
        self.d, self.e = d, e

    def __call__(self, ts):
        return Or(self.d(ts), z3.And(*[a == b for a, b in zip(ts, self.e)]))

    def exists(self, ctx, sorts, body):
        return Or(self.d.exists(ctx, sorts, body), body(self.e))


def rewrite_apps(t, table, cache=None):
    """Replace applications of the functions in table (by declaration) bottom-up, also under quantifiers."""
    if cache is None:
        cache = {}
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(t):
        n = t.num_vars()
        cs = [z3.Const("qv!%s!%d" % (t.var_name(i), t.get_id()), t.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(t.body(), *reversed(cs))
        nb = rewrite_apps(body, table, cache)
        r = t if nb is body else (z3.ForAll if t.is_forall() else z3.Exists)(cs, nb)
    elif z3.is_app(t):
        args = [rewrite_apps(c, table, cache) for c in t.children()]
        d = t.decl()
        f = table.get(d.name()) if d.kind() == z3.Z3_OP_UNINTERPRETED else None
        if f is not None:
            r = f(*args)
            r = zb(r) if isinstance(r, bool) else r
        elif all(a is b for a, b in zip(args, t.children())):
            r = t
        else:
            r = rebuild(d, args)
    else:
        r = t
    cache[k] = (t, r)
    return r


def rebuild(d, args):
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*args)
    if k == z3.Z3_OP_OR:
        return z3.Or(*args)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*args)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*args)
    return d(*args)


_consts = {}


def consts_in(t, acc=None, seen=None):
    """Names of the uninterpreted symbols of a term (cached; the terms are kept alive)."""
    key = t.get_id()
    hit = _consts.get(key)
    if hit is None:
        names = set()
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            h = _consts.get(i)
            if h is not None:
                names |= h[1]
            elif z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(d.name())
                stack.extend(x.children())
        if len(_consts) > 200000:
            _consts.clear()
        hit = _consts[key] = (t, frozenset(names))
    if acc is None:
        return set(hit[1])
    acc |= hit[1]
    return acc


def dnf(t, pos=True, limit=64):
    """List of conjunctions (lists of literals), contradictory and subsumed ones left out.  Literals are handled as
    signed numbers of hash-consed atoms."""
    if isinstance(t, bool):
        return [[]] if t == pos else []
    atoms = {}
    memo = {}

    def lit(x, p):
        i = x.get_id() + 1
        atoms[i] = x
        return [frozenset((i if p else -i,))]

    def go(x, p):
        key = (x.get_id(), p)
        if key not in memo:
            memo[key] = go2(x, p)
        return memo[key]

    def conj(subs):
        out = [frozenset()]
        for sub in sorted(subs, key=len):
            out = prune_sets([a | b for a in out for b in sub if not any(-l in a for l in b)])
            if len(out) > limit:
                raise Unsupported("condition too complex")
        return out

    def disj(subs):
        return prune_sets([c for sub in subs for c in sub])

    def go2(x, p):
        if not z3.is_app(x):
            return lit(x, p)
        k = x.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return [frozenset()] if p else []
        if k == z3.Z3_OP_FALSE:
            return [] if p else [frozenset()]
        if k == z3.Z3_OP_NOT:
            return go(x.arg(0), not p)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (conj if (k == z3.Z3_OP_AND) == p else disj)([go(c, p) for c in x.children()])
        if k == z3.Z3_OP_IMPLIES:
            a, b = x.arg(0), x.arg(1)
            return disj([go(a, False), go(b, True)]) if p else conj([go(a, True), go(b, False)])
        if k == z3.Z3_OP_ITE and x.sort() == B:
            c, a, b = x.children()
            return disj([conj([go(c, True), go(a, p)]), conj([go(c, False), go(b, p)])])
        if k == z3.Z3_OP_EQ and x.arg(0).sort() == B:
            a, b = x.children()
            return disj([conj([go(a, True), go(b, p)]), conj([go(a, False), go(b, not p)])])
        if k == z3.Z3_OP_DISTINCT and x.num_args() == 2:
            return go(x.arg(0) == x.arg(1), not p)
        if k == z3.Z3_OP_EQ and x.arg(0).eq(x.arg(1)):
            return [frozenset()] if p else []
        return lit(x, p)
    out = []
    for c in go(t, pos):
        out.append([atoms[i] if i > 0 else z3.Not(atoms[-i]) for i in sorted(c, key=abs)])
    return out


def prune_sets(cs):
    kept = []
    for c in sorted(set(cs), key=lambda c: (len(c), sorted(c))):
        if not any(k <= c for k in kept):
            kept.append(c)
    return kept


DNF_LIMIT = 64


def nnf(t, pos=True):
    """Negations pushed to the atoms."""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            return nnf(t.arg(0), not pos)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            cs = [nnf(c, pos) for c in t.children()]
            return z3.And(*cs) if (k == z3.Z3_OP_AND) == pos else z3.Or(*cs)
        if k == z3.Z3_OP_IMPLIES:
            return nnf(z3.Or(z3.Not(t.arg(0)), t.arg(1)), pos)
        if k == z3.Z3_OP_ITE and t.sort() == B:
            c, a, b = t.children()
            return nnf(z3.Or(z3.And(c, a), z3.And(z3.Not(c), b)), pos)
    return t if pos else z3.Not(t)


def simp_bool(t):
    """Propositional simplification that leaves quantifiers alone."""
    if not z3.is_app(t):
        return t
    k = t.decl().kind()
    if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES) or t.sort() != B:
        return t
    cs = [simp_bool(c) for c in t.children()]
    tr, fa = z3.is_true, z3.is_false
    if k == z3.Z3_OP_NOT:
        c = cs[0]
        return z3.BoolVal(False) if tr(c) else z3.BoolVal(True) if fa(c) else c.arg(0) if z3.is_not(c) else z3.Not(c)
    if k == z3.Z3_OP_ITE:
        c, a, b = cs
        if tr(c) or a.eq(b):
            return a
        if fa(c):
            return b
        if tr(a):
            return simp_bool(z3.Or(c, b))
        if fa(a):
            return simp_bool(z3.And(z3.Not(c), b))
        if tr(b):
            return simp_bool(z3.Or(z3.Not(c), a))
        if fa(b):
            return simp_bool(z3.And(c, a))
        return z3.If(c, a, b)
    if k == z3.Z3_OP_IMPLIES:
        return simp_bool(z3.Or(z3.Not(cs[0]), cs[1]))
    conj = k == z3.Z3_OP_AND
    out, ids = [], set()
    for c in cs:
        if (tr(c) if conj else fa(c)) or c.get_id() in ids:
            continue
        if fa(c) if conj else tr(c):
            return c
        ids.add(c.get_id())
        out.append(c)
    if not out:
        return z3.BoolVal(conj)
    return out[0] if len(out) == 1 else (z3.And(*out) if conj else z3.Or(*out))


def conjuncts(t):
    if z3.is_and(t):
        return [l for c in t.children() for l in conjuncts(c)]
    if z3.is_not(t) and z3.is_or(t.arg(0)):
        return [l for c in t.arg(0).children() for l in conjuncts(z3.Not(c))]
    if z3.is_not(t) and z3.is_not(t.arg(0)):
        return conjuncts(t.arg(0).arg(0))
    return [t]


def merge_lits(a, b):
    ids = {x.get_id() for x in a}
    return list(a) + [x for x in b if x.get_id() not in ids]


def prune(cs):
    """Drop contradictory conjunctions and those implied by a shorter one."""
    cs = [c for c in cs if not contradictory(c)]
    keys = [frozenset(x.get_id() for x in c) for c in cs]
    order = sorted(range(len(cs)), key=lambda i: len(keys[i]))
    kept = []
    for i in order:
        if not any(keys[j] <= keys[i] for j in kept):
            kept.append(i)
    return [cs[i] for i in sorted(kept)]


def contradictory(lits):
    pos, neg = set(), set()
    for l in lits:
        if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_NOT:
            neg.add(l.arg(0).get_id())
            if z3.is_eq(l.arg(0)) and l.arg(0).arg(0).eq(l.arg(0).arg(1)):
                return True
        else:
            pos.add(l.get_id())
    return bool(pos & neg)


def ite_leaves(t, conds=()):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return ite_leaves(a, conds + (c,)) + ite_leaves(b, conds + (z3.Not(c),))
    return [(conds, t)]


class Comp(object):
    """One function-valued component of the loop state."""

    def __init__(self, name, ksorts, sort, hfun):
        self.name, self.ksorts, self.sort, self.hfun = name, ksorts, sort, hfun


class LoopsMixin(object):
    # ------------------------------------------------------------ iterators
    def iter_spec_or_items(self, c):
        """Either a list of values (known length) or an Iter."""
        r = self.make_iter(c)
        if isinstance(r, Iter):
            return r
        out = []
        for th in r:
            v = th()
            if v is not SKIP:
                out.append(v)
        return out

    def make_iter(self, c):
        """List of thunks, or an Iter."""
        const = lambda xs: [(lambda x=x: x) for x in xs]
        if isinstance(c, (tuple, list)):
            return const(c)
        if isinstance(c, str):
            return const(list(c))
        if isinstance(c, RangeV):
            if isinstance(c.lo, int) and isinstance(c.hi, int) and isinstance(c.step, int):
                return const(range(c.lo, c.hi, c.step))
            if c.step == 1 and self.ctx.positional:
                return self.pos_range(c)
            if c.step == 1:
                lo, hi = self.int_term(c.lo), self.int_term(c.hi)
                return Iter([I], lambda i: z3.And(i >= lo, i < hi), lambda i: i, True,
                            order=lambda k: [lo + k] if c.lo != 0 else [k],
                            total=z3.If(hi > lo, hi - lo, z3.IntVal(0)), label="i")
            if c.step == -1:
                lo, hi = self.int_term(c.lo), self.int_term(c.hi)
                return Iter([I], lambda i: z3.And(i <= lo, i > hi), lambda i: i, True, label="i")
            raise Unsupported("stepped range")
        if isinstance(c, ListV):
            if isinstance(c.rep, CList):
                return const(c.rep.items)
            if isinstance(c.rep, PRep):
                return self.pos_iter(c.rep, c)
            return self.iter_slist(c.rep, c)
        if isinstance(c, SetV):
            return self.iter_set(c.rep, c.rep.mem, c.rep.elems, c.rep.ekind, c, lambda k: k)
        if isinstance(c, DictV):
            return self.iter_set(c.rep, c.rep.dom, c.rep.keys, c.rep.kkind, c, lambda k: k)
        if isinstance(c, KeysView):
            d = c.d
            prod = {"keys": lambda k: k, "values": lambda k: self.dict_get(d, k),
                    "items": lambda k: (k, self.dict_get(d, k))}[c.what]
            return self.iter_set(d.rep, d.rep.dom, d.rep.keys, d.rep.kkind, d, prod)
        if isinstance(c, NdArr_types()):
            return const([type(c)(r) if isinstance(r, list) else r for r in c.v])
        if isinstance(c, GenExp):
            return self.iter_genexp(c)
        if isinstance(c, LazyIter):
            return self.iter_lazy(c)
        if isinstance(c, Obj):
            if c.cls.lookup("__iter__")[0] is not None:
                return self.make_iter(self.call_attr(c, "__iter__", []))
            if c.cls.lookup("__getitem__")[0] is not None:
                raise Unsupported("iteration through __getitem__")
            raise PyRaise(TypeError, ("not iterable",))
        if is_u(c):
            return self.make_iter(self.opaque_container(c))
        if is_num(c) or c is None or isinstance(c, (bool, FuncV)):
            raise PyRaise(TypeError, ("not iterable",))
        raise Unsupported("iteration over %r" % (c,))

    def opaque_container(self, u):
        if self.ctx.opaque_iter is not None:
            return self.ctx.opaque_iter(self, u)
        raise Unsupported("container operation on an opaque value")

    def iter_slist(self, rep, src):
        sh = rep.ekind
        if sh is None:
            raise Unsupported("list of unknown elements")
        un = lambda ts: self.unflatten(sh, ts)
        has_order = getattr(rep, "at", None) is not None
        return Iter(sh.sorts(), lambda *ts: rep.mem(un(ts)), lambda *ts: un(ts), rep.nodup,
                    order=(lambda k: self.flatten(rep.at(k), sh)) if has_order else None, total=LazyLen(rep),
                    src=[src])

    def iter_set(self, rep, mem, elems, shape, src, prod):
        if elems is not None:
            out = []
            for i, e in enumerate(elems):
                if self.ctx.branch(And(mem(e), *[Not(And(mem(f), self.eq(f, e))) for f in elems[:i]])):
                    out.append((lambda e=e: prod(e)))
            return out
        sh = shape or SU
        un = lambda ts: self.unflatten(sh, ts)
        ordr = {}

        def order(k):
            l = self.order_list(rep, mem, sh)
            return self.flatten(l.at(k), sh)
        return Iter(sh.sorts(), lambda *ts: mem(un(ts)), lambda *ts: prod(un(ts)), True, order=order,
                    total=None, src=[src])

    def order_list(self, rep, mem, sh):
        """The iteration order of a set or dictionary that is not modified."""
        if rep.order is None:
            rep.order = self.fresh_list_of(mem, sh, True, "ord")
            self.length_facts(rep.order, sh)
        return rep.order

    def length_facts(self, l, sh):
        """One element, or at least two different ones."""
        ctx, n, mem = self.ctx, l.len, l.mem
        un = lambda ts: self.unflatten(sh, ts)
        w = [[ctx.const("ow", s) for s in sh.sorts()] for _ in range(2)]
        v = [z3.Const(ctx.fresh_name("oe"), s) for s in sh.sorts()]
        same = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
        ctx.axiom(z3.Implies(n >= 1, zb(mem(un(w[0])))))
        ctx.axiom(z3.Implies(n >= 2, z3.And(zb(mem(un(w[1]))), z3.Not(same(w[0], w[1])))))
        f = z3.ForAll(v, z3.Implies(zb(mem(un(v))), z3.Or(n >= 2, same(v, w[0]))))
        ctx.portable[f.get_id()] = f
        ctx.axiom(f)

    def iter_genexp(self, g):
        node, env = g.node, g.env
        if getattr(g, "consumed", False):
            return []
        g.consumed = True
        if len(node.generators) != 1:
            return self.make_iter(self.comprehension(ast.copy_location(
                ast.ListComp(node.elt, node.generators), node), env, "list", first=g.first))
        gen = node.generators[0]
        scope = self.ctx.new(Env(parent=env if not env.isclass else env.parent))
        inner = self.make_iter(g.first)

        def wrap(v):
            if v is SKIP:
                return SKIP
            self.assign(gen.target, v, scope)
            for c in gen.ifs:
                if not self.ctx.branch(self.eval_cond(c, scope)):
                    return SKIP
            return self.eval(node.elt, scope)
        return self.map_iter(inner, wrap, filtered=bool(gen.ifs))

    def map_iter(self, inner, fn, filtered=False):
        if isinstance(inner, list):
            return [(lambda th=th: fn(th())) for th in inner]
        p = inner.produce

        def produce(*ts):
            v = p(*ts)
            return SKIP if v is SKIP else fn(v)
        r = Iter(inner.sorts, inner.mem, produce, inner.nodup, inner.order, inner.total, inner.src, inner.label)
        r.filtered = filtered or getattr(inner, "filtered", False)
        r.pos = getattr(inner, "pos", False) and not r.filtered
        return r

    def iter_lazy(self, z):
        if z.kind == "iter":
            z.consumed = True
            return self.make_iter(z.srcs[0])
        if z.consumed:
            return []
        z.consumed = True
        k = z.kind
        if k == "gen":
            acc = self.new_list([])
            z.env.slots["\0yield"] = acc
            self.calls_depth += 1
            try:
                self.exec_block(z.fn.node.body, z.env)
            finally:
                self.calls_depth -= 1
            return self.make_iter(acc)
        if k == "zipstar" and len(z.srcs) == 1 and isinstance(z.srcs[0], ListV) and isinstance(z.srcs[0].rep, PRep):
            return self.pos_columns(z.srcs[0])
        if k == "map" and len(z.srcs) > 1 and self.ctx.positional:
            return self.map_iter(self.make_iter(LazyIter("zip", None, z.srcs)), lambda v: self.call(z.fn, list(v), {}))
        if k == "map":
            its = [self.make_iter(c) for c in z.srcs]
            if len(its) == 1:
                return self.map_iter(its[0], lambda v: self.call(z.fn, [v], {}))
            if all(isinstance(i, list) for i in its):
                return [(lambda ths=ths: self.call(z.fn, [t() for t in ths], {})) for ths in zip(*its)]
            raise Unsupported("map over several symbolic collections")
        if k == "filter":
            f = z.fn

            def test(v):
                c = self.truth(v) if f is None else self.truth(self.call(f, [v], {}))
                return v if self.ctx.branch(c) else SKIP
            return self.map_iter(self.make_iter(z.srcs[0]), test, filtered=True)
        if k == "enumerate":
            it = self.make_iter(z.srcs[0])
            start = z.fn
            if isinstance(it, list):
                return [(lambda i=i, th=th: (self.num_op("+", start, i), th())) for i, th in enumerate(it)]
            if it.order is None or getattr(it, "filtered", False):
                raise Unsupported("enumerate")
            n = self.iter_total(it)
            r = Iter([I], lambda i: z3.And(i >= 0, i < n),
                     lambda i: (self.num_op("+", start, i) if start != 0 else i, it.produce(*it.order(i))),
                     True, order=lambda j: [j], total=n, src=it.src, label="i")
            r.pos = getattr(it, "pos", False)
            return r
        if k == "zip":
            its = [self.make_iter(c) for c in z.srcs]
            if all(isinstance(i, list) for i in its):
                return [(lambda ths=ths: tuple(t() for t in ths)) for ths in zip(*its)]
            if any(isinstance(i, list) for i in its):
                raise Unsupported("zip of symbolic and plain collections")
            if any(i.order is None or getattr(i, "filtered", False) for i in its):
                raise Unsupported("zip")
            if all(getattr(i, "pos", False) for i in its):
                n = self.pos_total(its)
                r = Iter([I], lambda i: z3.And(i >= 0, i < n), lambda i: tuple(t.produce(*t.order(i)) for t in its), True,
                         order=lambda j: [j], total=n, label="i")
                r.pos = True
                return r
            ns = [self.iter_total(i) for i in its]
            return Iter([I], lambda i: z3.And(i >= 0, *[i < n for n in ns]),
                        lambda i: tuple(t.produce(*t.order(i)) for t in its), True, order=lambda j: [j],
                        total=self.min_int(ns), src=[s for t in its for s in t.src], label="i")
        if k == "chain":
            its = [self.make_iter(c) for c in z.srcs]
            if all(isinstance(i, list) for i in its):
                return [t for i in its for t in i]
            r = self.new_list([])
            for c in z.srcs:
                self.list_extend(r, self.to_list(c))
            return self.make_iter(r)
        if k in ("combinations", "permutations", "product"):
            return self.iter_combi(z)
        raise Unsupported("iteration over %s" % k)

    def min_int(self, ns):
        r = ns[0]
        for n in ns[1:]:
            r = z3.If(n < r, n, r)
        return r

    def iter_total(self, it):
        if it.total is None:
            # number of elements of a set: tie to the order list
            src = it.src[0]
            rep = src.rep if not isinstance(src, KeysView) else src.d.rep
            sh = rep.ekind if isinstance(rep, SSet) else rep.kkind
            mem = rep.mem if isinstance(rep, SSet) else rep.dom
            return self.int_term(self.order_list(rep, mem, sh or SU).len)
        return self.int_term(it.total() if isinstance(it.total, LazyLen) else it.total)

    def iter_combi(self, z):
        import itertools
        if z.kind == "product":
            its = [self.make_iter(c) for c in z.srcs]
            if all(isinstance(i, list) for i in its):
                vals = [[t() for t in i] for i in its]
                return [(lambda x=x: x) for x in itertools.product(*vals)]
            if any(isinstance(i, list) for i in its):
                raise Unsupported("product of symbolic and plain collections")
            sorts = [s for i in its for s in i.sorts]
            cuts = []
            p = 0
            for i in its:
                cuts.append((p, p + len(i.sorts)))
                p += len(i.sorts)
            return Iter(sorts, lambda *ts: And(*[i.mem(*ts[a:b]) for i, (a, b) in zip(its, cuts)]),
                        lambda *ts: tuple(i.produce(*ts[a:b]) for i, (a, b) in zip(its, cuts)),
                        And(*[i.nodup for i in its]), src=[s for i in its for s in i.src])
        c, r = z.srcs
        it = self.make_iter(c)
        if not isinstance(r, int):
            raise Unsupported("combinations")
        if isinstance(it, list):
            vals = [t() for t in it]
            f = itertools.combinations if z.kind == "combinations" else itertools.permutations
            return [(lambda x=x: x) for x in f(vals, r)]
        if z.kind == "permutations" or r not in (2, 3) or it.nodup is not True or getattr(it, "filtered", False):
            raise Unsupported("%s of a symbolic collection" % z.kind)
        src = it.src[0]
        if isinstance(src, ListV):
            rep = src.rep
            if hasattr(rep, "of"):
                # list(set): in the order of the set
                rep = self.order_list(rep.of, rep.mem, rep.ekind)
            if not hasattr(rep, "ats"):
                raise Unsupported("combinations of a derived list")
            idx = self.list_idx(rep)
        else:
            rr = src.rep
            mem = rr.mem if isinstance(rr, SSet) else rr.dom
            sh = (rr.ekind if isinstance(rr, SSet) else rr.kkind) or SU
            rep = self.order_list(rr, mem, sh)
            idx = self.list_idx(rep)
        rep.at(0)
        sh = rep.ekind
        w = len(it.sorts)
        parts = lambda ts: [ts[j * w:(j + 1) * w] for j in range(r)]

        def mem2(*ts):
            ps = parts(ts)
            ix = [idx(self.unflatten(sh, p)) for p in ps]
            return And(*([it.mem(*p) for p in ps] + [ix[j] < ix[j + 1] for j in range(r - 1)]))
        return Iter(it.sorts * r, mem2, lambda *ts: tuple(it.produce(*p) for p in parts(ts)), True, src=it.src)

    def concrete_items(self, c, n=None, allow_sym=False):
        r = self.make_iter(c)
        if isinstance(r, Iter):
            if n is not None and isinstance(c, ListV):
                # unpacking a list of symbolic length
                if not self.ctx.branch(self.num_cmp("==", c.rep.len, n)):
                    raise PyRaise(ValueError)
                return [self.stored(c.rep.at(i)) for i in range(n)]
            if allow_sym:
                return None
            if n is not None and isinstance(c, (SetV, DictV, KeysView)) and r.nodup is True and r.order is not None:
                if not self.ctx.branch(self.num_cmp("==", self.iter_total(r), n)):
                    raise PyRaise(ValueError)
                return [r.produce(*r.order(z3.IntVal(i))) for i in range(n)]
            raise Unsupported("symbolic collection where a known length is needed")
        out = []
        for th in r:
            v = th()
            if v is not SKIP:
                out.append(v)
        return out

    def to_list(self, c):
        if isinstance(c, ListV):
            return self.ctx.new(ListV(c.rep))
        if isinstance(c, (SetV, DictV)) or isinstance(c, KeysView) and c.what == "keys":
            d = c.d if isinstance(c, KeysView) else c
            rep = d.rep
            mem, elems, sh = (rep.mem, rep.elems, rep.ekind) if isinstance(rep, SSet) else \
                (rep.dom, rep.keys, rep.kkind)
            if elems is not None:
                return self.new_list(self.concrete_items(c))
            sh = sh or SU
            self_ = self

            class L(SList):
                """list(set): members known at once, length and order only when needed."""
                @property
                def len(s):
                    return self_.order_list(rep, mem, sh).len

                @len.setter
                def len(s, v):
                    pass
            out = L(None, lambda i: self.order_list(rep, mem, sh).at(i), mem, True, sh)
            out.of = rep
            L.idx_ = None
            return self.ctx.new(ListV(out))
        it = self.make_iter(c)
        if isinstance(it, list):
            out = []
            for th in it:
                v = th()
                if v is not SKIP:
                    out.append(v)
            return self.new_list(out)
        if getattr(it, "pos", False):
            return self.ctx.new(ListV(self.pos_template(it, lambda v: v)))
        acc = self.new_list([])
        self.run_iter(it, lambda v: self.list_append(acc, v), None)
        return acc

    def to_set(self, c, copy=False):
        if isinstance(c, SetV) and not copy:
            return c
        if isinstance(c, (SetV,)):
            return self.ctx.new(SetV(c.rep))
        if isinstance(c, DictV) or isinstance(c, KeysView) and c.what == "keys":
            r = (c.d if isinstance(c, KeysView) else c).rep
            return self.ctx.new(SetV(SSet(r.dom, r.kkind, r.keys)))
        if isinstance(c, ListV) and isinstance(c.rep, SList):
            return self.ctx.new(SetV(SSet(c.rep.mem, c.rep.ekind, None)))
        it = self.make_iter(c)
        if isinstance(it, list):
            vals = [v for v in (th() for th in it) if v is not SKIP]
            for v in vals:
                self.hashable(v)
            return self.ctx.new(SetV(self.fin_set(vals)))
        acc = self.ctx.new(SetV(self.fin_set([])))
        self.run_iter(it, lambda v: self.set_add(acc, v), None)
        return acc

    def first_element(self, c):
        it = self.make_iter(c)
        if isinstance(it, list):
            for th in it:
                v = th()
                if v is not SKIP:
                    return v
            return MISSING
        found = []

        class Stop(Exception):
            pass
        r = self.run_iter(it, lambda v: found.append(v) or ("brk",), None, signal=True)
        return found[-1] if r == ("brk",) else MISSING

    # ------------------------------------------------------------ loops
    def exec_for(self, s, env):
        it = self.make_iter(self.eval(s.iter, env))
        if isinstance(it, list):
            for th in it:
                v = th()
                if v is SKIP:
                    continue
                self.assign(s.target, v, env)
                r = self.exec_block(s.body, env)
                if r is None or r == ("cont",):
                    continue
                if r == ("brk",):
                    return None
                return r
            return self.exec_block(s.orelse, env)

        def step(v):
            self.assign(s.target, v, env)
            r = self.exec_block(s.body, env)
            return None if r == ("cont",) else r
        if getattr(it, "pos", False) and self.ctx.for_handler is None:
            return self.pos_for(s, env, it)
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        targets = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
        if stored & set(targets):
            targets = []
        h = self.ctx.for_handler
        if h is not None:
            done, r = h(self, s, env, it, step)
            if done:
                if r == ("brk",):
                    return None
                if r is not None:
                    return r
                return self.exec_block(s.orelse, env)
        r = self.run_iter(it, step, (env, targets, s.target), signal=True)
        if r == ("brk",):
            return None
        if r is not None:
            return r
        return self.exec_block(s.orelse, env)

    def exec_while(self, s, env):
        n = 0
        while True:
            c = self.eval_cond(s.test, env)
            from .interp import z3simp
            c = z3simp(c)
            if not isinstance(c, bool):
                # decided by the path condition?
                if self.ctx.check(c) == z3.unsat:
                    c = False
                elif n > 0 and self.ctx.check(Not(c)) == z3.unsat:
                    c = True
            h = self.ctx.while_handler
            if h is not None and n == 0 and c is not False:
                done, r = h(self, s, env)
                if done:
                    if r == ("brk",):
                        return None
                    if r is not None:
                        return r
                    return self.exec_block(s.orelse, env)
            if not isinstance(c, bool):
                raise Unsupported("while loop without an invariant")
            if not c:
                return self.exec_block(s.orelse, env)
            r = self.exec_block(s.body, env)
            n += 1
            if n > 40:
                raise Unsupported("while loop without an invariant")
            if r is None or r == ("cont",):
                continue
            if r == ("brk",):
                return None
            return r

    def iterate(self, c, assign, step, key=None):
        """Run assign/step for every element (no break)."""
        it = self.make_iter(c)

        def both(v):
            assign(v)
            r = step()
            return None if r == ("cont",) else r
        if isinstance(it, list):
            for th in it:
                v = th()
                if v is SKIP:
                    continue
                r = both(v)
                if r is not None:
                    return r
            return None
        return self.run_iter(it, both, None, signal=True)

    def quantified(self, c, is_all):
        """all(...) / any(...)."""
        it = self.make_iter(c)
        if isinstance(it, list):
            acc = is_all
            for th in it:
                if acc is (not is_all):
                    return acc
                guard = acc if is_all else Not(acc)
                if guard is True:
                    v = th()
                    t = True if v is SKIP and is_all else False if v is SKIP else self.truth(v)
                else:
                    def f():
                        v = th()
                        return is_all if v is SKIP else self.truth(v)
                    ok, t = self.merged(guard, f)
                    if not ok:
                        if self.ctx.branch(acc) != is_all:
                            return not is_all
                        acc = is_all
                        t = f()
                acc = And(acc, t) if is_all else Or(acc, t)
            return acc
        # pure, total body: a quantified formula
        es = [self.ctx.const(it.label, s) for s in it.sorts]
        res = []

        def run():
            self.ctx.assume(zb(it.mem(*es)))
            v = it.produce(*es)
            return ("val", is_all if v is SKIP else self.truth(v))

        def on_path(out, dec, facts, created):
            res.append((out[1], dec, facts, created))
        mark = len(self.ctx.trail)
        wl = self.ctx.write_log
        self.ctx.write_log = {}
        clock = self.ctx.clock
        try:
            self.ctx.sub_explore(run, on_path)
            bad = [m for (_, _), m in self.ctx.write_log.items() if m.birth <= clock and not isinstance(m, Env)]
        except PyRaise:
            raise Unsupported("any/all over a partial expression")
        finally:
            if wl is not None:
                wl.update(self.ctx.write_log)
            self.ctx.write_log = wl
        if bad:
            raise Unsupported("any/all with side effects")
        t = False
        for v, dec, facts, created in res:
            names = set(x.decl().name() for x in created)
            for f in list(dec) + ([] if isinstance(v, bool) else [v]):
                if names & consts_in(f):
                    # the elements one after the other, up to the one that decides
                    return self.quantified_loop(it, is_all)
            t = Or(t, And(*(list(dec) + [v])))
        vs = [z3.Const(self.ctx.fresh_name("q"), s) for s in it.sorts]
        sub = list(zip(es, vs))
        body = z3.substitute(zb(t), *sub)
        m = z3.substitute(zb(it.mem(*es)), *sub)
        return z3.ForAll(vs, z3.Implies(m, body)) if is_all else z3.Exists(vs, z3.And(m, body))

    def quantified_loop(self, it, is_all):
        def step(v):
            t = is_all if v is SKIP else self.truth(v)
            return ("brk",) if self.ctx.branch(t) != is_all else None
        r = self.run_iter(it, step, None, signal=True)
        return is_all if r is None else not is_all

    # ------------------------------------------------------------ summaries
    def run_iter(self, it, step, envinfo, signal=False):
        """Symbolic loop: returns None after exhaustion, or the break/return signal."""
        ctx = self.ctx
        if ctx.nobranch:
            raise NeedBranch()
        if z3_is_false(it.mem(*[z3.Const("zz%d" % i, s) for i, s in enumerate(it.sorts)])):
            return None

        def one(es):
            v = it.produce(*es)
            if v is SKIP:
                return ("norm",)
            r = step(v)
            return ("norm",) if r is None or r == ("cont",) else ("exit", r)
        S = Summary(self, it, one, envinfo)
        S.discover()
        return S.finish()

    def symbolic_sum(self, c, start):
        """sum() over a collection of unknown size: a term determined by the elements' values."""
        if isinstance(c, ListV) and getattr(c.rep, "each", None):
            it, e, v = c.rep.each
            return self.sum_term("+", it, e, v, start)
        it = self.make_iter_again(c)
        e = [self.ctx.const(it.label, s) for s in it.sorts]
        out = []

        def run():
            self.ctx.assume(zb(it.mem(*e)))
            return ("v", it.produce(*e))
        self.ctx.sub_explore(run, lambda o, d, f, cr: out.append((o[1], d, cr)))
        if len(out) != 1 or out[0][1] or out[0][0] is SKIP or not is_num(out[0][0]):
            raise Unsupported("sum")
        v = out[0][0]
        if it.nodup is not True and not getattr(it, "order", None):
            raise Unsupported("sum over a list with duplicates")
        return self.sum_term("+", it, e, v, start)

    def make_iter_again(self, c):
        if isinstance(c, (GenExp, LazyIter)):
            c.consumed = False
        it = self.make_iter(c)
        if isinstance(it, list) or not hasattr(it, "mem"):
            raise Unsupported("iteration over a collection of unknown length")
        return it

    def sum_term(self, op, it, e, v, start, mem=None):
        """Fold of a commutative operation over a duplicate-free collection: an uninterpreted value, equal
        for equal collections with equal summands."""
        if it.nodup is not True:
            raise Unsupported("fold over a list with duplicates")
        v = v if is_z3(v) else self.ctx.real(v) if isinstance(v, Fraction) else z3.IntVal(v)
        s = self.ctx.const("fold", v.sort())
        self.ctx.abstract("sum over a collection", s.decl().name())
        member = mem or it.mem
        mem = lambda ts: zb(member(*ts))
        val = lambda ts: z3.substitute(v, *list(zip(e, ts)))
        for (op2, sorts2, mem2, val2, s2) in self.ctx.folds:
            if op2 == op and [str(x) for x in sorts2] == [str(x) for x in it.sorts] and s2.sort() == s.sort():
                d = [self.ctx.const("fd", x) for x in it.sorts]
                self.ctx.axiom(z3.Or(s == s2, mem(d) != mem2(d), z3.And(mem(d), val(d) != val2(d))))
        w = [self.ctx.const("fw", x) for x in it.sorts]
        if op == "+":
            self.ctx.axiom(z3.Or(s == 0, mem(w)))
        self.ctx.putattr(self.ctx, "folds", self.ctx.folds + [(op, it.sorts, mem, val, s)])
        if op == "+":
            return self.num_op("+", start, s)
        return s

    def symbolic_join(self, sep, c):
        """', '.join(...) over a collection of unknown size: total, mentions every element's text."""
        it = self.make_iter_again(c)
        e = [self.ctx.const(it.label, s) for s in it.sorts]
        kinds = []

        def run():
            self.ctx.assume(zb(it.mem(*e)))
            v = it.produce(*e)
            if v is SKIP:
                return ("skip", None)
            if isinstance(v, (str, OpaqueStr)):
                return ("str", v)
            if is_u(v):
                return ("u", v)
            return ("bad", v)

        def on(o, dec, facts, cr):
            kinds.append((o, dec))
        try:
            self.ctx.sub_explore(run, on)
        except PyRaise as ex:
            # raised for some element: happens when the collection is not empty
            self.ctx.assume(zb(it.mem(*e)))
            raise
        parts = []
        for (k, v), dec in kinds:
            if k == "bad":
                if dec:
                    raise Unsupported("join of mixed values")
                if self.ctx.branch(self.iter_nonempty(it)):
                    raise PyRaise(TypeError, ("join of a non-string",))
                return ""
            if k == "u":
                isstr = z3.Function("u_isstr", U, B)
                vs = [z3.Const(self.ctx.fresh_name("j"), s) for s in it.sorts]
                cond = z3.ForAll(vs, z3.Implies(zb(it.mem(*vs)), z3.substitute(isstr(v), *list(zip(e, vs)))))
                if not self.ctx.branch(cond):
                    raise PyRaise(TypeError, ("join of a non-string",))
            if k in ("str", "u") and not dec:
                parts.append(("each", it, e, v))
        return OpaqueStr(tuple(parts))

    def last_value(self, p):
        """The loop variables after an exhausted loop: those of its last element, if there was one."""
        S, it = p.summary, p.it
        if self.ctx.branch(self.iter_nonempty(it)):
            es = [self.ctx.const(it.label, s) for s in it.sorts]
            self.ctx.assume(zb(it.mem(*es)))
            if it.order is not None and it.total is not None:
                for a, b in zip(es, it.order(self.iter_total(it) - 1)):
                    self.ctx.assume(a == b)
            v = it.produce(*es)
            if v is SKIP:
                raise PoisonRead(p)
            self.assign(S.target, v, S.env)
            return
        for ent in S.mods:
            if ent["obj"] is S.env and ent["slot"] in S.targets:
                if ent["init"] is MISSING:
                    self.ctx.delslot(S.env, ent["slot"])
                else:
                    self.ctx.put(S.env, ent["slot"], ent["init"])

    def iter_nonempty(self, it):
        vs = [z3.Const(self.ctx.fresh_name("n"), s) for s in it.sorts]
        return z3.Exists(vs, zb(it.mem(*vs)))

    def e_Yield(self, e, env):
        f = env
        while f is not None and "\0yield" not in f.slots:
            f = f.parent
        if f is None:
            raise Unsupported("yield")
        self.list_append(f.slots["\0yield"], self.eval(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        f = env
        while f is not None and "\0yield" not in f.slots:
            f = f.parent
        self.list_extend(f.slots["\0yield"], self.to_list(self.eval(e.value, env)))
        return None


class LazyLen(object):
    def __init__(self, rep):
        self.rep = rep

    def __call__(self):
        return self.rep.len


def NdArr_types():
    from .builtins import NdArr
    return (NdArr,)


def z3_is_false(x):
    if isinstance(x, bool):
        return not x
    from .core import has_quant
    return not has_quant(x) and z3.is_false(z3.simplify(x))


# ==================================================================== summaries
class HavocList(SList):
    pass


class Summary(object):
    def __init__(self, interp, it, one, envinfo):
        self.ip, self.ctx, self.it, self.one = interp, interp.ctx, it, one
        self.env, self.targets, self.target = envinfo if envinfo else (None, [], None)
        self.mods = []              # entries: dict(kind=..., ...)
        self.clock = self.ctx.clock
        self.carried = set()
        self.flagged = set()
        self.shapes = {}

    # ---- state access
    def key_of(self, m, slot):
        if isinstance(m, (ListV, SetV, DictV)):
            v = self.ip.view_owner(m)
            if v is not None:
                return ("view", id(v)), v
            return ("cell", id(m)), m
        return ("slot", id(m), slot), m

    def read_init(self, ent):
        m = ent["obj"]
        if ent["kind"] == "slot":
            return m.slots.get(ent["slot"], MISSING)
        if ent["kind"] == "view":
            return self.ip.read_view(m)
        return m.slots["rep"]

    def discover(self):
        ip, ctx, it = self.ip, self.ctx, self.it
        self.symclock = ctx.symclock()
        es = [ctx.const(it.label, s) for s in it.sorts]
        self.es = es
        for rounds in range(14):
            mark = len(ctx.trail)
            npc = len(ctx.pc)
            ctx.solver.push()
            log, every = {}, {}
            saved = ctx.write_log
            paths = []
            restart = False
            try:
                self.havoc()
                ctx.write_log = log
                ctx.suppress += 1
                try:
                    def run():
                        ctx.write_log = {}
                        ctx.putattr(ctx, "indet", False)
                        ctx.assume(zb(it.mem(*es)))
                        try:
                            return self.one(es)
                        except PyRaise as ex:
                            return ("raise", ex)
                        except PoisonRead as pr:
                            return ("poison", pr.poison)

                    def on_path(out, dec, facts, created):
                        fin = None
                        every.update(ctx.write_log)
                        if out[0] in ("norm", "poison"):
                            # writes on the way out of the loop are no part of its state
                            log.update(ctx.write_log)
                        if out[0] == "norm":
                            fin = {}
                            for ent in self.mods:
                                fin[ent["key"]] = self.snapshot(ent)
                        paths.append((out, dec, facts, created, fin, ctx.indet))
                    ctx.sub_explore(run, on_path)
                finally:
                    ctx.suppress -= 1
                    ctx.write_log = saved
                    if saved is not None:
                        saved.update(every)
            finally:
                ctx.solver.pop()
                del ctx.pc[npc:]
                del ctx.pckind[npc:]
                ctx.rollback(mark)
            for p in paths:
                if p[0][0] == "poison":
                    k = getattr(p[0][1], "key", None)
                    if k is None or k in self.carried:
                        raise Unsupported("use of %s after or inside a loop" % (p[0][1].why,))
                    self.carried.add(k)
                    restart = True
            new = False
            known = {e["key"]: e for e in self.mods}
            for (mid, slot), m in log.items():
                if m.birth > self.clock:
                    continue
                key, obj = self.key_of(m, slot)
                if key not in known:
                    ent = {"key": key, "kind": key[0], "obj": obj, "slot": slot}
                    self.mods.append(ent)
                    known[key] = ent
                    new = True
            if restart or new:
                continue
            if self.refine_shapes(paths):
                continue
            if self.find_flags(paths):
                continue
            self.paths = paths
            break
        else:
            raise Unsupported("loop state does not stabilise")
        srcs = set()
        for c in it.src:
            d = c.d if isinstance(c, KeysView) else c
            while isinstance(d, DictV) and d.owner is not None:
                d = d.owner[0]
            srcs.add(self.key_of(d, "rep")[0])
        for e in self.mods:
            if e["key"] in srcs:
                raise Unsupported("collection modified while it is iterated")
        self.build_forms()

    def find_flags(self, paths):
        """Local variables that the body only ever sets to one constant keep their meaning after the loop."""
        found = False
        const = lambda v: v is None or isinstance(v, (bool, int, str))
        for ent in self.mods:
            if ent["kind"] != "slot" or ent.get("mode") != "temp" or ent["slot"] in self.targets or not (
                    const(ent["init"]) or is_z3(ent["init"]) and ent["init"].sort() == B):
                continue
            vals = [p[4][ent["key"]] for p in paths if p[4] is not None]
            vals = [v for v in vals if not isinstance(v, Poison)]
            if vals and all(const(v) and type(v) is type(vals[0]) and v == vals[0] for v in vals):
                self.carried.add(ent["key"])
                self.flagged.add(ent["key"])
                found = True
        return found

    def havoc(self):
        """Put an arbitrary loop state: every modified component becomes a fresh function."""
        ctx, ip = self.ctx, self.ip
        for ent in self.mods:
            init = self.read_init(ent)
            ent["init"] = init
            if ent["kind"] == "view":
                Vh, Eh, Wh = ctx.func_("hV", U, B), ctx.func_("hE", U, U, B), ctx.func_("hW", U, U, U)
                ent["comps"] = [Comp("V", [U], B, Vh), Comp("E", [U, U], B, Eh), Comp("W", [U, U], U, Wh)]
                ip.write_view(ent["obj"], lambda x: Vh(x), lambda x, y: z3.And(Vh(x), Vh(y), Eh(x, y)),
                              lambda x, y: Wh(x, y))
                continue
            if ent["kind"] == "slot":
                key = ent["key"]
                if key not in self.carried:
                    p = Poison("variable %s assigned in a loop" % ent["slot"])
                    p.key = key
                    ctx.put(ent["obj"], ent["slot"], p)
                    ent["comps"] = []
                    ent["mode"] = "temp"
                    continue
                if init is MISSING or isinstance(init, Poison):
                    raise Unsupported("variable %s read before assignment in a loop" % ent["slot"])
                if isinstance(init, (ListV, SetV, DictV)):
                    ent["mode"] = "container"
                    cell = type(init)(None)
                    cell.slots["rep"] = self.havoc_rep(ent, init.rep)
                    ctx.new(cell)
                    if isinstance(init, SetV):
                        cell.is_frozenset = init.is_frozenset
                    ctx.put(ent["obj"], ent["slot"], cell)
                    continue
                if isinstance(init, (str, OpaqueStr)) and key not in self.flagged:
                    # text built up by the loop: the things it is known to mention
                    ent["mode"] = "text"
                    f = ctx.func_("h_text", U, B)
                    ent["comps"] = [Comp("mentions", [U], B, f)]
                    ctx.put(ent["obj"], ent["slot"], OpaqueStr((("ment", lambda x, f=f: f(x)),)))
                    continue
                ent["mode"] = "scalar"
                sh = self.shapes.get(key) or ip.shape(init)
                ent["shape"] = sh
                cs = [ctx.const("h_" + str(ent["slot"]), s) for s in sh.sorts()]
                ent["comps"] = [Comp("v%d" % i, [], c.sort(), c.decl()) for i, c in enumerate(cs)]
                ctx.put(ent["obj"], ent["slot"], ip.unflatten(sh, cs))
                continue
            ctx.put(ent["obj"], "rep", self.havoc_rep(ent, init))

    def havoc_rep(self, ent, init):
        ctx, ip = self.ctx, self.ip
        sh = self.shapes.get(ent["key"])
        if isinstance(init, (CList, SList)):
            ek = sh or (ip.slist_rep(init).ekind if not (isinstance(init, CList) and not init.items) else None)
            ent["ekind"] = ek
            if ek is None:
                # empty so far: one round from the initial state, to learn what is stored
                ent["comps"] = []
                ent["hrep"] = init
                return init
            else:
                f = ctx.func_("h_mem", *(ek.sorts() + [B]))
                nd = ctx.const("h_nd", B)
                r = HavocList(ctx.const("h_len", I), None, lambda x: f(*ip.flatten(x, ek)), nd, ek)
                ent["comps"] = [Comp("mem", ek.sorts(), B, f), Comp("nodup", [], B, nd.decl())]

            def noat(i):
                raise Unsupported("indexing a list that a loop is building")
            r.at = noat
            ent["hrep"] = r
            return r
        if isinstance(init, SSet):
            ek = sh or init.ekind
            ent["ekind"] = ek
            if ek is None:
                ent["comps"] = []
                return init
            f = ctx.func_("h_mem", *(ek.sorts() + [B]))
            ent["comps"] = [Comp("mem", ek.sorts(), B, f)]
            return SSet(lambda x: f(*ip.flatten(x, ek)), ek, None)
        if isinstance(init, SDict):
            ks, vs = sh if sh else (init.kkind, init.vkind)
            if sh is None and init.keys is not None and init.keys:
                ks, vs = self.dict_shapes(init, init.keys[0])
            ent["ks"], ent["vs"] = ks, vs
            if ks is None or vs is None:
                ent["comps"] = []
                return init
            if isinstance(vs, tuple):
                if vs[1] is None or not isinstance(vs[2], Shape):
                    raise Unsupported("loop over a nested dictionary of unknown shape")
                f1 = ctx.func_("h_dom", *(ks.sorts() + [B]))
                f2 = ctx.func_("h_dom2", *(ks.sorts() + vs[1].sorts() + [B]))
                f3 = [ctx.func_("h_val2", *(ks.sorts() + vs[1].sorts() + [s])) for s in vs[2].sorts()]
                ent["comps"] = [Comp("dom", ks.sorts(), B, f1), Comp("dom2", ks.sorts() + vs[1].sorts(), B, f2)] + \
                    [Comp("val%d" % i, ks.sorts() + vs[1].sorts(), s, f)
                     for i, (s, f) in enumerate(zip(vs[2].sorts(), f3))]
                return self.nested_dict(ks, vs, lambda a: f1(*a), lambda a, b: f2(*(a + b)),
                                        lambda a, b: [f(*(a + b)) for f in f3])
            f1 = ctx.func_("h_dom", *(ks.sorts() + [B]))
            f2 = [ctx.func_("h_val", *(ks.sorts() + [s])) for s in vs.sorts()]
            ent["comps"] = [Comp("dom", ks.sorts(), B, f1)] + \
                [Comp("val%d" % i, ks.sorts(), s, f) for i, (s, f) in enumerate(zip(vs.sorts(), f2))]
            return SDict(lambda x: f1(*ip.flatten(x, ks)),
                         lambda x: ip.unflatten(vs, [f(*ip.flatten(x, ks)) for f in f2]), ks, vs, None)
        raise Unsupported("loop state of kind %s" % type(init).__name__)

    def nested_dict(self, ks, vs, dom, dom2, val2):
        ip = self.ip

        def val(x):
            a = ip.flatten(x, ks)
            return SDict(lambda y: dom2(a, ip.flatten(y, vs[1])),
                         lambda y: ip.unflatten(vs[2], val2(a, ip.flatten(y, vs[1]))), vs[1], vs[2], None)
        return SDict(lambda x: dom(ip.flatten(x, ks)), val, ks, vs, None)

    def dict_shapes(self, rep, k):
        ip = self.ip
        v = rep.val(k)
        ks = ip.shape(k)
        if isinstance(v, SDict):
            if v.keys:
                return ks, ("dict", ip.shape(v.keys[0]), ip.shape(v.val(v.keys[0])))
            return ks, ("dict", v.kkind, v.vkind)
        return ks, ip.shape(v)

    def snapshot(self, ent):
        """End-of-iteration value of a modified component (closures stay valid after rollback as they only
        refer to immutable representations)."""
        if ent["kind"] == "view":
            return self.ip.read_view(ent["obj"])
        if ent["kind"] == "slot":
            v = ent["obj"].slots.get(ent["slot"], MISSING)
            if isinstance(v, (ListV, SetV, DictV)) and ent.get("mode") == "container":
                return v.rep
            return v
        return ent["obj"].slots["rep"]

    def refine_shapes(self, paths):
        """Learn element shapes from what the body stored; True when something new was learnt."""
        ip = self.ip
        changed = False
        for ent in self.mods:
            key = ent["key"]
            for out, dec, facts, created, fin, _ in paths:
                if fin is None:
                    continue
                v = fin[key]
                init = ent["init"]
                if ent["kind"] == "slot" and ent.get("mode") == "temp":
                    continue
                if ent["kind"] == "slot" and ent.get("mode") == "text":
                    if not isinstance(v, (str, OpaqueStr)):
                        self.flagged.add(key)
                        changed = True
                    continue
                if ent["kind"] == "slot" and ent.get("mode") == "scalar":
                    sh = ip.join_shape(ent["shape"], ip.shape(v))
                    if sh != ent["shape"]:
                        self.shapes[key] = sh
                        changed = True
                    continue
                if isinstance(v, (CList, SList, SSet)):
                    ek = ip.slist_rep(v).ekind if isinstance(v, CList) else v.ekind
                    if isinstance(v, CList) and v.items and ek is None:
                        raise Unsupported("loop stores values of no common kind")
                    if ek is not None and ent.get("ekind") != ek:
                        ek = ip.join_shape(ent.get("ekind"), ek)
                        if ek != ent.get("ekind"):
                            self.shapes[key] = ek
                            changed = True
                elif isinstance(v, SDict) and (ent.get("ks") is None or ent.get("vs") is None or
                                               isinstance(ent["vs"], tuple) and ent["vs"][1] is None):
                    k = getattr(v, "lastkey", None)
                    k = self.last_key(v)
                    if k is not None:
                        self.shapes[key] = self.dict_shapes(v, k)
                        changed = True
        return changed

    def last_key(self, rep):
        if rep.keys:
            return rep.keys[-1]
        return getattr(rep, "set_key", None)

    # ---- closed forms
    def build_forms(self):
        ip, ctx = self.ip, self.ctx
        normal = [p for p in self.paths if p[0][0] == "norm"]
        self.normal = normal
        self.abrupt = [p for p in self.paths if p[0][0] != "norm"]
        self.hnames = set()
        self.read_names = set()
        for ent in self.mods:
            for c in ent["comps"]:
                self.hnames.add(c.hfun.name())
        # initial values as functions
        self.init_table = {}
        for ent in self.mods:
            fns = self.comp_funcs(ent, self.init_snapshot(ent))
            ent["initf"] = fns
            for c, f in zip(ent["comps"], fns):
                self.init_table[c.hfun.name()] = f
        for ent in self.mods:
            ent["forms"] = []
            if ent.get("mode") == "temp" or not normal:
                ent["forms"] = list(ent["initf"])
                ent["static"] = True
                continue
            if isinstance(ent["init"], (CList, SList)) or ent.get("mode") == "container" and isinstance(
                    ent["init"], ListV):
                self.list_info(ent)
            pathf = [self.comp_funcs(ent, p[4][ent["key"]]) for p in normal]
            for i, c in enumerate(ent["comps"]):
                if c.name == "nodup":
                    ent["forms"].append(self.nodup_form(ent, pathf))
                    continue
                X = [z3.Const(ctx.fresh_name("X"), s) for s in c.ksorts]
                T = None
                for p, fs in reversed(list(zip(normal, pathf))):
                    r = zb(fs[i](*X))
                    T = r if T is None else z3.If(z3.And(*p[1]) if p[1] else z3.BoolVal(True), r, T)
                created = set(x.decl().name() for p in normal for x in p[3])
                consts_in(T, self.read_names)
                ent["forms"].append(self.guess(ent, c, X, T, ent["initf"][i], created))

    def nodup_form(self, ent, pathf):
        """A list stays free of duplicates when what the loop adds is new and added once."""
        ip, ctx = self.ip, self.ctx
        init = self.init_snapshot(ent)
        nd = self.init_nodup(ent)
        c = ent["comps"][0]
        if any(ent.get("appends") or [True]) and self.keeps_nodup(ent, pathf):
            return lambda x, D: nd
        if nd is not False and not self.adds_once(ent, c):
            unknown = ctx.const("nodup", B)
            ent["nodup_unknown"] = True
            if ent["ekind"].kind != "S":
                ctx.abstract("duplicates in a list", unknown.decl().name())
            return lambda x, D: unknown

        if nd is not False and self.it.nodup is not True and any(ent.get("appends") or []):
            # once each only when the collection has each element once
            nd = And(nd, self.it.nodup)
        if isinstance(init, CList) and not init.items or nd is False:
            return lambda x, D: nd
        X = [z3.Const(ctx.fresh_name("X"), s) for s in c.ksorts]
        T = None
        for p, fs in reversed(list(zip(self.normal, pathf))):
            r = zb(fs[0](*X))
            T = r if T is None else z3.If(z3.And(*p[1]) if p[1] else z3.BoolVal(True), r, T)
        if any(c.hfun.name() in consts_in(d) for p in self.normal for d in p[1]):
            # what is added depends on what is there: freedom of duplicates is shown, but not its absence
            ent["nodup_inexact"] = True
        table = dict(self.init_table)
        table[c.hfun.name()] = lambda *a: z3.BoolVal(False)
        created = set(x.decl().name() for p in self.normal for x in p[3])
        adds = self.closures(self.rewrite(T, {c.hfun.name(): table[c.hfun.name()]}), X, created, c)

        def form(x, D):
            ys = [z3.Const(ctx.fresh_name("Y"), s) for s in c.ksorts]
            new = Or(*[f(ys, D) for f in adds])
            hit = And(new, ent["initf"][0](*ys))
            return And(nd, True if hit is False else z3.ForAll(ys, zb(Not(hit))))
        return form

    def keeps_nodup(self, ent, pathf):
        """No round adds what is there already (to be proved again by the step)."""
        i = [c.name for c in ent["comps"]].index("nodup")
        hnd = ent["comps"][i].hfun()
        for p, fs in zip(self.normal, pathf):
            new = zb(fs[i]())
            if new.eq(hnd):
                continue
            if not self.ip.prove(Implies(And(hnd, self.it.mem(*self.es), *(list(p[1]) + [f for f in p[2] if is_z3(f)])), new), ms=1500):
                return False
        return True

    def adds_once(self, ent, c):
        """Two iterations never add the same element."""
        ap = ent.get("appends")
        if ap is None or not any(ap):
            return True
        sorts = [e.sort() for e in self.es]
        d1, d2 = ([self.ctx.const("ao", s) for s in sorts] for _ in range(2))
        def items(d):
            sub = list(zip(self.es, d))
            for p, a in zip(self.normal, ap):
                cond = z3.substitute(z3.And(*p[1]), *sub) if p[1] else True
                for v in a:
                    yield cond, [z3.substitute(t, *sub) for t in self.ip.flatten(v, ent["ekind"])]
        same = Or(*[And(ca, cb, *[x == y for x, y in zip(ta, tb)]) for ca, ta in items(d1) for cb, tb in items(d2)])
        diff = Or(*[x != y for x, y in zip(d1, d2)])
        hyp = And(self.it.mem(*d1), self.it.mem(*d2), diff, self.it.nodup)
        return self.ip.prove(Not(And(hyp, same)), ms=1500)

    def init_snapshot(self, ent):
        v = ent["init"]
        if ent["kind"] == "slot" and ent.get("mode") == "container":
            return v.rep
        return v

    def comp_funcs(self, ent, v):
        """The components of a value of this entry as functions of key terms."""
        ip = self.ip
        if ent["kind"] == "view":
            V, E, W = v
            return [V, E, W]
        if ent["kind"] == "slot" and ent.get("mode") == "temp":
            return []
        if ent["kind"] == "slot" and ent.get("mode") == "text":
            return [lambda x: ip.text_mentions(v, x)]
        if ent["kind"] == "slot" and ent.get("mode") == "scalar":
            ts = ip.flatten(v, ent["shape"])
            return [(lambda t=t: t) for t in ts]
        if isinstance(v, (CList, SList)):
            if ent["ekind"] is None:
                return []
            s = ip.slist_rep(v)
            un = lambda ts: ip.unflatten(ent["ekind"], ts)
            return [lambda *x: s.mem(un(x)), lambda: s.nodup]
        if isinstance(v, SSet):
            if ent["ekind"] is None:
                return []
            un = lambda ts: ip.unflatten(ent["ekind"], ts)
            return [lambda *x: v.mem(un(x))]
        if isinstance(v, SDict):
            ks, vs = ent["ks"], ent["vs"]
            if ks is None or vs is None:
                return []
            n = len(ks.sorts())
            uk = lambda ts: ip.unflatten(ks, ts)
            empty = v.keys is not None and not v.keys
            if isinstance(vs, tuple):
                n2 = len(vs[1].sorts())
                uk2 = lambda ts: ip.unflatten(vs[1], ts)

                def dom2(*x):
                    if empty:
                        return False
                    return v.val(uk(x[:n])).dom(uk2(x[n:]))

                def val2(j):
                    def f(*x):
                        if empty:
                            return self.junk(vs[2].sorts()[j], x)
                        w = v.val(uk(x[:n]))
                        if w.keys is not None and not w.keys:
                            return self.junk(vs[2].sorts()[j], x)
                        return ip.flatten(w.val(uk2(x[n:])), vs[2])[j]
                    return f
                return [lambda *x: v.dom(uk(x)), dom2] + [val2(j) for j in range(len(vs[2].sorts()))]

            def val(j):
                def f(*x):
                    if empty:
                        return self.junk(vs.sorts()[j], x)
                    return ip.flatten(v.val(uk(x)), vs)[j]
                return f
            return [lambda *x: v.dom(uk(x))] + [val(j) for j in range(len(vs.sorts()))]
        raise Unsupported("loop state")

    def junk(self, sort, x):
        """Value of a key that is not in the dictionary (irrelevant)."""
        f = z3.Function("junk_%s" % sort, *([t.sort() for t in x] + [sort]))
        return f(*x)

    def list_info(self, ent):
        """Items appended by each normal path to a list built by the loop."""
        infos = []
        for p in self.normal:
            v = p[4][ent["key"]]
            if v is ent["hrep"]:
                infos.append(())
                continue
            app = getattr(v, "app", None)
            if app is None or app[0] is not ent["hrep"]:
                infos = None
                break
            infos.append(app[1])
        ent["appends"] = infos

    def rewrite(self, t, table):
        return rewrite_apps(t, table)

    def guess(self, ent, c, X, T, initf, created):
        """Closed form of one component: a function of (key terms, D)."""
        ip, ctx, es = self.ip, self.ctx, self.es
        enames = [e.decl().name() for e in es]
        hself = c.hfun(*X) if c.ksorts else c.hfun()
        if T.eq(hself):
            return lambda x, D: initf(*x)
        if c.sort == B:
            adds = self.closures(simp_bool(z3.And(z3.substitute(T, (hself, z3.BoolVal(False))), z3.Not(hself))), X, created, c)
            dels = self.closures(simp_bool(z3.And(z3.Not(z3.substitute(T, (hself, z3.BoolVal(True)))), hself)), X, created, c)

            def form(x, D):
                keep = zb(initf(*x))
                dl = Or(*[f(x, D) for f in dels])
                ad = Or(*[f(x, D) for f in adds])
                return Or(And(keep, Not(dl)), ad)
            return form
        # accumulators
        if not c.ksorts and c.sort in (I, R):
            acc = self.accumulator(c, T, hself)
            if acc is not None:
                return acc
        leaves = []
        for conds, leaf in ite_leaves(T):
            if leaf.eq(hself) or any(n.startswith("junk") for n in consts_in(leaf)):
                continue            # unchanged, or the value of an absent key
            leaves.append((z3.And(*conds) if conds else z3.BoolVal(True), leaf))
        cases = []
        for cond, leaf in leaves:
            for lits in self.disjuncts(cond):
                eqs = [(a, b) for l in lits if z3.is_eq(l) for a, b in
                       ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))) if any(a.eq(x) for x in X)]
                if eqs and z3.substitute(leaf, *eqs).eq(z3.substitute(hself, *eqs)):
                    continue
                leaf = self.rewrite(leaf, self.init_table)
                if any(n.startswith("junk") for n in consts_in(leaf)):
                    continue
                sol, rest = self.solve_e(lits, X)
                rest = self.settle(rest)
                if rest is None:
                    continue
                lits = rest
                if sol is None:
                    if set(enames) & consts_in(leaf):
                        if DEBUG:
                            print("ORDER", c.name, lits, "->", leaf)
                        raise Unsupported("loop assigns a value that depends on the iteration order")
                    cases.append((None, lits, leaf))
                else:
                    cases.append((sol, rest, leaf))
                names = consts_in(leaf)
                for l in lits:
                    names |= consts_in(l)
                if names & created:
                    raise Unsupported("loop state depends on derived values")

        def form(x, D):
            r = initf(*x)
            sub = list(zip(X, x))
            for sol, rest, leaf in cases:
                if sol is None:
                    cnd = D.exists(ctx, [e.sort() for e in es], lambda ts: zb(And(*[
                        z3.substitute(l, *(sub + list(zip(es, ts)))) for l in rest])))
                    val = z3.substitute(leaf, *sub) if sub else leaf
                else:
                    ts = [z3.substitute(t, *sub) if sub else t for t in sol]
                    s2 = sub + list(zip(es, ts))
                    cnd = And(D(ts), *[z3.substitute(l, *s2) for l in rest])
                    val = z3.substitute(leaf, *s2)
                r = ip.merge(cnd if isinstance(cnd, bool) else cnd, val, r)
            return r
        return form

    def accumulator(self, c, T, h):
        """T = h + f(e): a sum over the processed elements."""
        if not (z3.is_app(T) and T.decl().kind() == z3.Z3_OP_ADD):
            return None
        parts = list(T.children())
        hs = [p for p in parts if p.eq(h)]
        rest = [p for p in parts if not p.eq(h)]
        if len(hs) != 1 or any(self.hnames & consts_in(p) for p in rest):
            return None
        ip, ctx, es = self.ip, self.ctx, self.es
        f = self.rewrite(rest[0] if len(rest) == 1 else z3.Sum(*rest), self.init_table)
        initf = next(e["initf"][i] for e in self.mods for i, k in enumerate(e["comps"]) if k is c)
        folds = {}

        def fold(D):
            """The sum over the processed elements: each is processed once."""
            if isinstance(D, DUnion):
                return fold(D.d) + z3.substitute(f, *list(zip(es, D.e)))
            if id(D) not in folds:
                folds[id(D)] = (ip.sum_term("+", self.it, es, f, 0, mem=lambda *ts: D(ts)), D)
            return folds[id(D)][0]
        return lambda x, D: initf() + fold(D)

    def disjuncts(self, t):
        """Conjunctions of literals equivalent to t for elements of the iterated collection."""
        mem = zb(self.it.mem(*self.es))
        ctxf = [f for f in [mem] if not _hq(f)]
        if not _hq(t):
            try:
                g = z3.Goal()
                g.add(t)
                for f in ctxf:
                    g.add(f)
                t = z3.TryFor(z3.Tactic("ctx-solver-simplify"), 2000)(g).as_expr()
            except z3.Z3Exception:
                t = z3.simplify(t, elim_and=False)
        elif ctxf:
            t = simp_bool(z3.And(t, *ctxf))
        known = set()
        for f in ctxf:
            for l in conjuncts(f):
                known.add(l.get_id())
        try:
            out = dnf(t, limit=DNF_LIMIT)
            if len(out) > DNF_LIMIT:
                raise Unsupported("")
        except Unsupported:
            self.split_work = 0
            out = self.split(conjuncts(nnf(t)))
        return prune([[l for l in c if l.get_id() not in known] for c in out])

    def solvable(self, conj):
        return self.solve_e(conj, None)[0] is not None

    def solving(self, t):
        """Some equation e == term without e occurs positively."""
        names = [e.decl().name() for e in self.es]
        if z3.is_and(t) or z3.is_or(t):
            return any(self.solving(c) for c in t.children())
        return z3.is_eq(t) and any(z3.is_const(a) and a.decl().name() in names and not set(names) & consts_in(b)
                                   for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))))

    def split(self, conj, depth=0):
        """Distribute only the disjunctions needed to solve for the iteration variables."""
        if contradictory(conj):
            return []
        if len(conj) == 1 and z3.is_or(conj[0]):
            return [c for d in conj[0].children() for c in self.split(conjuncts(d), depth)]
        self.split_work += 1
        if depth > 6 or self.split_work > 150 or self.solvable(conj):
            return [conj]
        for i, l in enumerate(conj):
            if not z3.is_or(l) or not self.solving(l):
                continue
            parts = []
            for d in l.children():
                parts += self.split(merge_lits(conj[:i] + conj[i + 1:], conjuncts(d)), depth + 1)
                if len(parts) > 32:
                    break
            if len(parts) <= 32 and (not parts or any(self.solvable(c) for c in parts)):
                return parts
        return [conj]

    def solve_e(self, lits, X):
        """Solve the literals for the iteration variables: (terms without them, remaining literals)."""
        es = self.es
        names = [e.decl().name() for e in es]
        sol = {}
        rest = list(lits)
        progress = True
        while progress and len(sol) < len(es):
            progress = False
            for l in rest:
                if z3.is_eq(l):
                    for a, b in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                        if z3.is_const(a) and a.decl().name() in names and a.decl().name() not in sol and \
                                not (set(names) & consts_in(b)):
                            sol[a.decl().name()] = b
                            sub = [(es[names.index(a.decl().name())], b)]
                            rest = [z3.substitute(m, *sub) for m in rest if m is not l]
                            rest = [m for m in rest if not z3.is_true(z3.simplify(m) if not _hq(m) else m)]
                            progress = True
                            break
                if progress:
                    break
        if len(sol) < len(es):
            return None, lits
        return [sol[n] for n in names], rest

    def closures(self, t, X, created, c):
        """exists e in D. t(e, X), as functions of (X, D)."""
        ctx, es = self.ctx, self.es
        names = [e.decl().name() for e in es]
        out = []
        for lits in self.disjuncts(t):
            for l in lits:
                if consts_in(l) & created:
                    raise Unsupported("loop state depends on derived values")
            sol, rest = self.solve_e(lits, X)
            rest = self.settle(rest)
            if rest is None:
                continue

            def f(x, D, sol=sol, rest=rest):
                sub = list(zip(X, x))
                if sol is not None:
                    ts = [z3.substitute(s, *sub) if sub else s for s in sol]
                    s2 = sub + list(zip(es, ts))
                    return And(D(ts), *[z3.substitute(l, *s2) for l in rest])
                inner = [l for l in rest if set(names) & consts_in(l)]
                outer = [l for l in rest if not set(names) & consts_in(l)]
                ex = D.exists(ctx, [e.sort() for e in es], lambda ts: zb(And(*[
                    z3.substitute(l, *(sub + list(zip(es, ts)))) for l in inner])))
                return And(*([z3.substitute(l, *sub) if sub else l for l in outer] + [ex]))
            out.append(f)
        return out

    def settle(self, lits):
        """Literals over the initial state instead of the loop state; None when one of them is false."""
        out = []
        for l in lits:
            r = self.rewrite(l, self.init_table)
            if not _hq(r):
                q = z3.simplify(r)
                if z3.is_true(q):
                    continue
                if z3.is_false(q):
                    return None
            out.append(r)
        return out

    # ---- using the closed form
    def put_state(self, D, final=False):
        """Install F(D)."""
        ctx, ip = self.ctx, self.ip
        for ent in self.mods:
            if ent.get("mode") == "temp":
                if ent["slot"] in self.targets and ent["obj"] is self.env and final:
                    p = LastElem(self.it, self.one, ent["init"], "loop variable %s" % ent["slot"])
                    p.summary, p.slot = self, ent["slot"]
                else:
                    p = Poison("variable %s assigned in a loop" % ent["slot"])
                ctx.put(ent["obj"], ent["slot"], p)
                continue
            fs = ent["forms"]
            fn = lambda i, fs=fs, st=ent.get("static"): (lambda *x: fs[i](x, D)) if not st else fs[i]
            if ent["kind"] == "view":
                V, E, W = [template(fn(i), c.ksorts) for i, c in enumerate(ent["comps"])]
                ip.write_view(ent["obj"], V, lambda x, y, V=V, E=E: And(V(x), V(y), E(x, y)), W)
                ent["cur"] = [V, lambda x, y, V=V, E=E: And(V(x), V(y), E(x, y)), W]
                continue
            if ent["kind"] == "slot" and ent["mode"] == "text":
                M = template(fn(0), [U])
                ent["cur"] = [M]
                ctx.put(ent["obj"], ent["slot"], OpaqueStr((("ment", M),)))
                continue
            if ent["kind"] == "slot" and ent["mode"] == "scalar":
                ts = [zb(fn(i)()) for i in range(len(fs))]
                ent["cur"] = [(lambda t=t: t) for t in ts]
                ctx.put(ent["obj"], ent["slot"], ip.unflatten(ent["shape"], ts))
                continue
            rep = self.form_rep(ent, fn, final)
            ent["cur"] = self.comp_funcs(ent, rep)
            if ent["kind"] == "slot":
                cell = type(ent["init"])(None)
                cell.slots["rep"] = rep
                if isinstance(cell, SetV):
                    cell.is_frozenset = ent["init"].is_frozenset
                ctx.new(cell)
                ctx.put(ent["obj"], ent["slot"], cell)
            else:
                ctx.put(ent["obj"], "rep", rep)

    def form_rep(self, ent, fn, final):
        ctx, ip = self.ctx, self.ip
        init = self.init_snapshot(ent)
        if isinstance(init, (CList, SList)):
            ek = ent["ekind"]
            if ek is None:
                return init
            mem = lambda x, g=fn(0): g(*ip.flatten(x, ek))
            nd = fn(1)() if not ent.get("static") else init.nodup if isinstance(init, SList) else ip.slist_rep(init).nodup
            if final and ent.get("nodup_inexact"):
                u = ctx.const("nodup", B)
                ctx.abstract("duplicates in a list", u.decl().name())
                nd = Or(nd, u)
            ap = ent.get("appends")
            exact = final and ap is not None and all(len(a) == 1 for a in ap) and \
                self.it.order is not None and (self.it.total is not None or self.it.src) and not self.abrupt and \
                all(not (self.hnames & consts_in(t)) for a in ap for t in ip.flatten(a[0], ek)) and \
                all(not (self.hnames & consts_in(d)) for p in self.normal for d in p[1])

            def each(r):
                """One element for each element of the iterated collection: remembered for sums."""
                if final and isinstance(init, CList) and not init.items and ek.kind in "IR" and ap is not None and \
                        len(ap) == 1 and len(ap[0]) == 1 and not self.abrupt and self.it.nodup is True and \
                        not (self.hnames | set(x.decl().name() for x in self.normal[0][3])) & consts_in(ip.flatten(ap[0][0], ek)[0]) and not self.normal[0][1]:
                    r.each = (self.it, self.es, ip.flatten(ap[0][0], ek)[0])
            if exact and isinstance(init, CList) and not init.items:
                it, es = self.it, self.es
                self_ = self

                def at(i):
                    ts = it.order(ip.int_term(i))
                    r = None
                    for p, a in reversed(list(zip(self_.normal, ap))):
                        leaves = [z3.substitute(t, *list(zip(es, ts))) for t in ip.flatten(a[0], ek)]
                        v = ip.unflatten(ek, leaves)
                        r = v if r is None else ip.merge(
                            z3.substitute(z3.And(*p[1]) if p[1] else z3.BoolVal(True), *list(zip(es, ts))), v, r)
                    return r
                class L(SList):
                    @property
                    def len(s):
                        return ip.iter_total(it)

                    @len.setter
                    def len(s, v):
                        pass
                r = L(None, at, mem, nd, ek)
                each(r)
                return r
            r = ip.fresh_list_of(mem, ek, nd)
            each(r)
            return r
        if isinstance(init, SSet):
            ek = ent["ekind"]
            if ek is None:
                return init
            return SSet(lambda x, g=fn(0): g(*ip.flatten(x, ek)), ek, None)
        ks, vs = ent["ks"], ent["vs"]
        if ks is None or vs is None:
            return init
        if isinstance(vs, tuple):
            return self.nested_dict(ks, vs, lambda a: fn(0)(*a), lambda a, b: fn(1)(*(a + b)),
                                    lambda a, b: [fn(2 + j)(*(a + b)) for j in range(len(vs[2].sorts()))])
        return SDict(lambda x: fn(0)(*ip.flatten(x, ks)),
                     lambda x: ip.unflatten(vs, [fn(1 + j)(*ip.flatten(x, ks)) for j in range(len(vs.sorts()))]),
                     ks, vs, None)

    def normal_fact(self, ts):
        """What is known of an element whose iteration ended normally."""
        if not self.abrupt:
            return True
        alts = []
        for n, p in enumerate(self.normal):
            sub = list(zip(self.es, ts))
            for c in p[3]:
                if c.decl().name() in [e.decl().name() for e in self.es]:
                    continue
                f = z3.Function("sk_" + c.decl().name(), *([e.sort() for e in self.es] + [c.sort()]))
                sub.append((c, f(*ts)))
            # facts about functions made in the iteration are not carried over
            known = set(c.decl().name() for c in p[3]) | set(e.decl().name() for e in self.es)
            made = set(c.decl().name() for c in p[3])
            fs, lost = [], []
            # functions that a nested loop left behind: one for every round
            funs = []
            for d in list(p[1]) + list(p[2]):
                if d.get_id() in self.ctx.loop_facts:
                    for g in funcs_in(d):
                        if g.name() not in known and g.name() not in self.hnames and \
                                self.ctx.is_new_symbol(g.name(), self.symclock):
                            doms = [g.domain(i) for i in range(g.arity())]
                            h = z3.Function("sk_" + g.name(), *([e.sort() for e in self.es] + doms + [g.range()]))
                            # (substitute_funs numbers the arguments from the first)
                            funs.append((g, h(*(list(ts) + [z3.Var(i, s) for i, s in enumerate(doms)]))))
                            known.add(g.name())
                            made.add(g.name())
            for n, d in enumerate(list(p[1]) + list(p[2])):
                names = consts_in(d)
                keep = not (self.hnames & names) and (not _hq(d) or n < len(p[1]) or d.get_id() in self.ctx.portable or
                                                       d.get_id() in self.ctx.loop_facts) \
                    and not any(self.ctx.is_new_symbol(x, self.symclock) and x not in known for x in names)
                (fs if keep else lost).append((n < len(p[1]), d))
            used = set()
            for _, d in fs:
                used |= consts_in(d) & made
            if any(dec or used & consts_in(d) or d.get_id() in self.ctx.loop_facts for dec, d in lost):
                self.ctx.abstract("what is known of the rounds of a loop")
            fs = [z3.substitute_funs(d, *funs) if funs else d for _, d in fs]
            alts.append(zb(And(*[z3.substitute(d, *sub) for d in fs])))
        return Or(*alts) if alts else False

    def list_facts(self):
        """The meaning of the element functions of the lists that the closed form reads."""
        names = set()
        for p in self.paths:
            for f in p[1]:
                consts_in(f, names)
        names |= self.read_names
        for n in sorted(names):
            if n in self.ctx.list_axioms:
                self.ctx.list_axioms[n](z3.IntVal(0))

    def facts_for(self, Dfn):
        """forall d in D: its iteration ended normally."""
        if not self.abrupt:
            return
        vs = [z3.Const(self.ctx.fresh_name("nd"), e.sort()) for e in self.es]
        nf = self.normal_fact(vs)
        if nf is True:
            return
        f = z3.ForAll(vs, zb(Implies(Dfn(vs), nf)))
        if self.ctx.indet:
            # inside another loop, with no recorded decision that says as much
            self.ctx.loop_facts[f.get_id()] = f
        self.ctx.assume(f)

    def finish(self):
        ctx, ip, it = self.ctx, self.ip, self.it
        branch = ctx.decide(2)
        brk = self.exit_condition()
        if brk is None and self.abrupt:
            # whether the loop is left early is no recorded decision
            ctx.putattr(ctx, "indet", True)
        if branch == 1:
            # an arbitrary iteration from F(D)
            sorts = [e.sort() for e in self.es]
            df = ctx.func_("Done", *(sorts + [B]))
            es = [ctx.const(it.label, s) for s in sorts]
            ctx.assume(zb(it.mem(*es)))
            vs = [z3.Const(ctx.fresh_name("dv"), s) for s in sorts]
            ctx.assume(z3.ForAll(vs, zb(Implies(df(*vs), it.mem(*vs))), patterns=[df(*vs)]))
            if it.nodup is not False:
                ctx.assume(zb(Implies(it.nodup, z3.Not(df(*es)))))
            D = Dpred(lambda *ts: df(*ts))
            self.list_facts()
            self.facts_for(D)
            self.put_state(D)
            if any(ent["kind"] == "view" for ent in self.mods):
                pass
            if brk is not None:
                # inside another loop: the decisions that lead out are summed up in one
                ctx.deckind, saved = "fact", ctx.deckind
                try:
                    out = self.one(es)
                except PyRaise:
                    ctx.deckind = saved
                    ctx.assume(brk, saved)
                    raise
                finally:
                    ctx.deckind = saved
            else:
                out = self.one(es)
            if out[0] == "exit":
                if brk is not None:
                    ctx.assume(brk, ctx.deckind)
                return out[1]
            self.verify_step(D, es)
            raise PathEnd()
        if brk is not None:
            ctx.assume(z3.Not(brk), ctx.deckind)
        D = Dpred(lambda *ts: it.mem(*ts))
        self.list_facts()
        self.facts_for(D)
        self.put_state(D, final=True)
        return None

    def exit_condition(self):
        """When the loop is part of the body of another one: the condition on the state before it under which it
        is left early (None when it cannot be told without the state that the loop builds)."""
        if not self.ctx.suppress or not self.abrupt:
            return None
        own = set(e.decl().name() for e in self.es)
        alts = []
        for p in self.abrupt:
            names = set()
            for d in p[1]:
                consts_in(d, names)
            # only the element and symbols that were there before the loop
            if p[5] or any(self.ctx.is_new_symbol(n, self.symclock) and n not in own for n in names):
                return None
            alts.append(zb(And(*p[1])))
        vs = [z3.Const(self.ctx.fresh_name("q"), e.sort()) for e in self.es]
        sub = list(zip(self.es, vs))
        return z3.Exists(vs, zb(And(zb(self.it.mem(*vs)), z3.substitute(z3.Or(*alts), *sub))))

    def verify_step(self, D, es):
        ctx, ip = self.ctx, self.ip
        D2 = DUnion(D, es)
        for ent in self.mods:
            if ent.get("mode") == "temp":
                continue
            if not ent["comps"] and self.snapshot(ent) is not self.init_snapshot(ent):
                raise Unsupported("loop state of unknown kind")
            fin = self.comp_funcs(ent, self.snapshot(ent))
            fs = ent["forms"]
            for i, c in enumerate(ent["comps"]):
                if c.name == "nodup" and ent.get("nodup_unknown"):
                    continue
                if c.name == "nodup":
                    cur = fin[i]()
                    want = fs[i]((), D2) if not ent.get("static") else fs[i]()
                    if not ip.prove(Implies(want, cur)):
                        if DEBUG:
                            print("NODUP FAILED", want, "\nGOT", cur, "\nPC", ctx.pc)
                        raise Unsupported("list built by a loop may hold duplicates")
                    continue
                X = [ctx.const("X", s) for s in c.ksorts]
                want = fs[i](tuple(X), D2) if not ent.get("static") else fs[i](*X)
                if ent["kind"] == "view" and c.name == "E":
                    v0 = ent["forms"][0]
                    want = And(want, v0((X[0],), D2), v0((X[1],), D2))
                got = fin[i](*X)
                goal = ip.eq_terms(got, want)
                if c.name.startswith("val") or c.name == "W":
                    # values matter only where the key is present
                    dom = fin[1 if ent["kind"] == "view" or c.name.startswith("val") and isinstance(
                        ent.get("vs"), tuple) else 0](*X)
                    goal = Implies(dom, goal)
                    if isinstance(ent.get("vs"), tuple):
                        n = len(ent["ks"].sorts())
                        goal = Implies(fin[0](*X[:n]), goal)
                if not ip.prove(goal):
                    if DEBUG:
                        print("STEP FAILED", ent["key"], c.name, "\nGOAL", goal, "\nPC", ctx.pc, "\n")
                    raise Unsupported("loop summary not proved (%s)" % c.name)
        ctx.run.loops_proved += 1

    def init_nodup(self, ent):
        init = self.init_snapshot(ent)
        return self.ip.slist_rep(init).nodup


def template(f, sorts):
    """The same function, built once and then instantiated."""
    cell = []

    def g(*x):
        if not cell:
            ps = [z3.Const("tp!%d" % i, s) for i, s in enumerate(sorts)]
            t = zb(f(*ps))
            cell.append((ps, t, {}))
        ps, t, memo = cell[0]
        key = tuple(a.get_id() for a in x)
        r = memo.get(key)
        if r is None:
            r = memo[key] = (z3.substitute(t, *zip(ps, x)), x)
        return r[0]
    return g


def funcs_in(t):
    """The function symbols with arguments."""
    seen, out, todo = set(), {}, [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x.decl()
            todo.extend(x.children())
    return list(out.values())


def _hq(t):
    from .core import has_quant
    return has_quant(t)
