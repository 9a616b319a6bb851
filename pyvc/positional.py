"""Lists of unknown length whose elements are known by position (matrix rows and columns of any size), and sums over
them.  Used where a specification asks for it (`ctx.positional`).

A comprehension or a loop over positions is run once, at an arbitrary position e; what it yields there, as a term in e,
is what it yields at every position.  This is exact for bodies that read nothing that another round writes: a
body may append one value to lists that start empty, add to numeric accumulators, and assign its own locals; anything else is
out of reach here.  A sum is an uninterpreted function of the positions it depends on, with the finite-sum laws of
`sum_facts` (proved by induction in contracts/c13.py)."""
import ast
import z3
from .values import *
from .ops import *


class PRep(SList):
    """List by positions: `at(i)` for 0 <= i < len."""

    def __init__(self, length, at, origin=None, own=False):
        self.len, self.at, self.origin = length, at, origin
        self.own = own          # the elements that are lists belong to this list alone
        self.ekind = None
        self.idx = None

    @property
    def mem(self):
        raise Unsupported("membership in a list known by positions")

    @property
    def nodup(self):
        raise Unsupported("distinctness in a list known by positions")


class Probe(SList):
    """Stands for a list a loop appends to, during one round."""

    def __init__(self, added=()):
        self.added = tuple(added)
        self.idx = None

    def no(self):
        raise Unsupported("a loop reads the list it appends to")
    len = at = mem = nodup = ekind = property(no)


class RowView(ListV):
    """Row k of a list known by positions: reads and writes go to that list."""

    def __init__(self, parent, k):
        Mut.__init__(self)
        self.parent, self.k = parent, k
        self.frozen = True

    @property
    def rep(self):
        r = self.parent.rep
        if not isinstance(r, PRep):
            raise Unsupported("row of a list that was replaced")
        return r.at(self.k)


class NoAxis(Exception):
    """The writes of a loop do not follow its positions along this axis."""


ADD = 2          # every round adds to elements at positions that may be the same for all rounds


class Sum(object):
    def __init__(self, f, params, n, e, term):
        self.f, self.params, self.n, self.e, self.term = f, params, n, e, term

    def inst(self, args, what, *more):
        return z3.substitute(what, *(list(zip(self.params, args)) + list(more)))


class PositionalMixin(object):
    # ------------------------------------------------------------ templates
    def pos_snap(self, v):
        """Immutable form of a value."""
        if isinstance(v, tuple):
            return tuple(self.pos_snap(x) for x in v)
        if isinstance(v, ListV):
            r = v.rep
            if isinstance(r, CList):
                return CList([self.pos_snap(x) for x in r.items])
            if isinstance(r, PRep):
                return r
            raise Unsupported("list inside a list known by positions")
        if isinstance(v, (CList, PRep)) or isinstance(v, (bool, int, Fraction, str)) or v is None:
            return v
        if is_z3(v) and v.sort() in (I, R, B):
            return v
        raise Unsupported("%s in a list known by positions" % type(v).__name__)

    def pos_subst(self, v, sub):
        if isinstance(v, tuple):
            return tuple(self.pos_subst(x, sub) for x in v)
        if isinstance(v, CList):
            return CList([self.pos_subst(x, sub) for x in v.items])
        if isinstance(v, PRep):
            n = v.len if isinstance(v.len, int) else z3.simplify(z3.substitute(v.len, *sub))
            return PRep(n, lambda i, v=v: self.pos_subst(v.at(i), sub), v.origin, v.own)
        if is_z3(v):
            return z3.substitute(v, *sub)
        return v

    def pos_consts(self, v, acc):
        """Names of the constants in a template."""
        from .loops import consts_in
        if isinstance(v, (tuple, CList)):
            for x in (v if isinstance(v, tuple) else v.items):
                self.pos_consts(x, acc)
        elif isinstance(v, PRep):
            if is_z3(v.len):
                acc |= consts_in(v.len)
            self.pos_consts(v.at(z3.Const("pos?", I)), acc)
        elif is_z3(v):
            acc |= consts_in(v)
        return acc

    def pos_merge(self, c, a, b):
        if isinstance(a, PRep) and isinstance(b, PRep):
            if a is b:
                return a
            same = self.num_cmp("==", a.len, b.len)
            if same is True or is_z3(same) and self.ctx.check(Not(same)) == z3.unsat:
                return PRep(a.len, lambda i: self.pos_merge(c, a.at(i), b.at(i)), None, a.own and b.own)
            raise Unsupported("lists of different lengths")
        if isinstance(a, CList) and isinstance(b, CList) and len(a.items) == len(b.items):
            return CList([self.pos_merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.pos_merge(c, x, y) for x, y in zip(a, b))
        if is_num(a) and is_num(b) and (is_real(a) or is_real(b)):
            a, b = self.ctx.real(a), self.ctx.real(b)
        return self.merge(c, a, b)

    def plist(self, n, at, origin=None, own=False):
        """A list of n elements at(0), at(1), ..."""
        return self.ctx.new(ListV(PRep(n, at, origin, own)))

    # ------------------------------------------------------------ elements
    def pos_elem(self, o, rep, k):
        v = rep.at(k)
        if isinstance(v, (PRep, CList)) and o is not None and not o.frozen:
            return RowView(o, k)
        return self.stored(v)

    def pos_rows(self, rep):
        """The elements are lists."""
        return isinstance(rep.at(z3.Const("pos?", I)), (PRep, CList))

    def pos_copy(self, rep):
        """A copy of the list shares its elements."""
        if isinstance(rep, PRep) and self.pos_rows(rep):
            self.ctx.alias_rows = True
            return PRep(rep.len, rep.at, rep.origin)
        return rep

    def pos_concat(self, a, b):
        reps = []
        for r in (a, b):
            if isinstance(r, CList):
                if any(not is_num(x) for x in r.items):
                    raise Unsupported("joining lists known by positions")
                r = PRep(len(r.items), self.slist_rep(r).at)
            if not isinstance(r, PRep) or self.pos_rows(r):
                raise Unsupported("joining lists known by positions")
            reps.append(r)
        x, y = reps
        if x.len == 0 and isinstance(x.len, int):
            return PRep(y.len, y.at)
        if y.len == 0 and isinstance(y.len, int):
            return PRep(x.len, x.at)
        n = x.len
        return PRep(self.num_op("+", n, y.len), lambda i: self.pos_merge(
            zb(self.num_cmp("<", i, n)), x.at(i), y.at(self.num_op("-", i, n))))

    def pos_index(self, n, k):
        if isinstance(k, bool) or not (isinstance(k, int) or is_z3(k) and k.sort() == I):
            raise Unsupported("list index %r" % (k,))
        if isinstance(k, int) and k < 0 or is_z3(k) and self.ctx.branch(k < 0, "negative index"):
            k = self.num_op("+", n, k)
        if not self.ctx.branch(And(self.num_cmp(">=", k, 0), self.num_cmp("<", k, n)), "index in range"):
            raise PyRaise(IndexError)
        return k

    def pos_updated(self, rep, k, v):
        if isinstance(rep, CList):
            rep = PRep(len(rep.items), self.slist_rep(rep).at, None, False)
        return PRep(rep.len, lambda i: self.pos_merge(zb(self.num_cmp("==", i, k)), v, rep.at(i)), rep.origin, rep.own)

    def pos_set_item(self, o, k, v):
        rep = o.rep
        if self.ctx.alias_rows or o.frozen and not isinstance(o, RowView):
            raise Unsupported("assignment to an element of a list that may be shared")
        if not is_num(v):
            raise Unsupported("assignment of this value to an element of a list known by positions")
        if isinstance(rep, CList) and any(not is_num(x) for x in rep.items) or isinstance(rep, PRep) and self.pos_rows(rep):
            raise Unsupported("assignment to a row of a list known by positions")
        k = self.pos_index(len(rep.items) if isinstance(rep, CList) else rep.len, k)
        self.ctx.setrep(o, self.pos_updated(rep, k, v))

    def pos_set_row(self, view, rep):
        old = view.parent.rep
        if not old.own or self.ctx.alias_rows:
            raise Unsupported("assignment to an element of a row that may be shared")
        row = old.at(view.k)
        if isinstance(row, CList) or not isinstance(rep, PRep) or rep.len is not row.len and \
                not (is_z3(rep.len) and is_z3(row.len) and rep.len.eq(row.len)):
            raise Unsupported("change of the length of a row")
        self.ctx.setrep(view.parent, self.pos_updated(old, view.k, rep))

    def pos_fresh(self, x, clock):
        """The value is no list that exists elsewhere; else writes to rows are out of reach from here on."""
        if not isinstance(x, ListV):
            return True
        if not isinstance(x, RowView) and not x.frozen and x.birth > clock:
            return True
        if not getattr(x, "column", False):
            self.ctx.alias_rows = True
            if not isinstance(x, RowView):
                x.frozen = True
        return False

    # ------------------------------------------------------------ iteration
    def pos_iter(self, rep, owner=None):
        from .loops import Iter
        n = self.int_term(rep.len)
        r = Iter([I], lambda i: z3.And(i >= 0, i < n), lambda i: self.pos_elem(owner, owner.rep if owner is not None else rep, i),
                 True, order=lambda k: [k], total=n, label="i")
        r.pos = True
        return r

    def pos_range(self, c):
        from .loops import Iter
        lo, hi = self.int_term(c.lo), self.int_term(c.hi)
        n = z3.simplify(hi - lo)
        if self.ctx.check(n < 0) != z3.unsat:
            n = z3.If(n > 0, n, z3.IntVal(0))
        r = Iter([I], lambda i: z3.And(i >= 0, i < n), lambda i: z3.simplify(lo + i), True, order=lambda k: [k], total=n,
                 label="i")
        r.pos = True
        return r

    def pos_columns(self, rows):
        """zip(*rows)."""
        from .loops import Iter
        ctx, rep = self.ctx, rows.rep
        i = z3.Const(ctx.fresh_name("row"), I)
        first = rep.at(i)
        if isinstance(first, CList):
            m = len(first.items)
            get = lambda r, j: self.get_item(ListV(r), j)
        elif isinstance(first, PRep):
            m = first.len
            get = lambda r, j: r.at(j)
        else:
            raise Unsupported("zip(*...)")
        from .loops import consts_in
        if is_z3(m) and str(i) in consts_in(m):
            raise Unsupported("zip of rows of different lengths")
        m = self.int_term(m)
        if ctx.check(zb(self.num_cmp("<=", rep.len, 0))) != z3.unsat:
            m = z3.If(self.int_term(rep.len) > 0, m, z3.IntVal(0))

        def column(j):
            c = self.stored(PRep(rep.len, lambda t: get(rep.at(t), j)))
            c.column = True
            return c
        r = Iter([I], lambda j: z3.And(j >= 0, j < m), column, True, order=lambda k: [k],
                 total=m, label="i")
        r.pos = True
        return r

    def pos_total(self, its):
        """Length of the shortest."""
        ns = [self.iter_total(t) for t in its]
        r = ns[0]
        for n in ns[1:]:
            if self.ctx.check(r > n) == z3.unsat:
                continue
            r = n if self.ctx.check(n > r) == z3.unsat else z3.If(r < n, r, n)
        return r

    # ------------------------------------------------------------ one arbitrary round
    def pos_round(self, it, body, accs=(), here=None):
        """Run body(element) at an arbitrary position (`here`: a list that gets the position; the body then gets the element
        by calling its argument); returns (e, n, outcome per path [(value, condition)], objects older than the loop that were written)."""
        ctx = self.ctx
        if ctx.nobranch:
            raise NeedBranch()
        e = ctx.const("p", I)
        n = self.iter_total(it)
        outs, written = [], {}
        clock, saved = ctx.clock, ctx.write_log
        inside = ctx.pos_open
        ctx.pos_open = inside + [e]

        def run():
            ctx.write_log = {}
            ctx.assume(z3.And(e >= 0, e < n))
            try:
                if here is not None:
                    here.append(e)
                    return ("v", body(lambda: it.produce(*it.order(e))))
                return ("v", body(it.produce(*it.order(e))))
            except PyRaise as ex:
                return ("raise", ex)

        def on(o, dec, facts, cr):
            for (_, slot), m in ctx.write_log.items():
                if m.birth <= clock:
                    written[(id(m), slot)] = m
            outs.append((o, list(dec), list(facts), list(cr)))
        try:
            ctx.sub_explore(run, on)
        finally:
            ctx.write_log = saved
            if saved is not None:
                saved.update(written)
            ctx.pos_open = inside
        from .loops import consts_in
        good = []
        for o, dec, facts, cr in outs:
            if o[0] == "raise":
                if any(str(a) in consts_in(d) for a in accs for d in dec):
                    raise Unsupported("a loop that raises depending on what other rounds did")
                b = ctx.const("raises", B)
                if ctx.branch(b):
                    ctx.assume(z3.And(e >= 0, e < n))
                    for f in dec + facts:
                        ctx.assume(f)
                    raise o[1]
            else:
                names = set(str(x) for x in cr)
                seen = self.pos_consts(o[1], set())
                for d in dec:
                    seen |= consts_in(d)
                if names & seen:
                    raise Unsupported("a value that is not determined by the position")
                good.append((o[1], And(*dec)))
        if not good:
            # every round raises: there is none
            ctx.assume(n <= 0)
        return e, n, good, written

    def pos_join(self, good):
        v, _ = good[-1]
        for w, c in good[:-1]:
            v = self.pos_merge(zb(c), w, v)
        return v

    def pos_template(self, it, body):
        """The list of body(element) over all elements."""
        own, clock = [True], self.ctx.clock

        def element(x):
            x = body(x)
            own[0] = self.pos_fresh(x, clock) and own[0]
            return self.pos_snap(x)
        e, n, good, written = self.pos_round(it, element)
        if any(not isinstance(m, Env) for m in written.values()):
            raise Unsupported("comprehension with side effects")
        if not good:
            return CList(())
        v = self.pos_join(good)
        return PRep(n, lambda i: self.pos_subst(v, [(e, self.int_term(i))]), None, own[0])

    # ------------------------------------------------------------ sums
    def pos_sum_term(self, n, e, term):
        """Sum of term over 0 <= e < n."""
        from .loops import consts_in
        ctx = self.ctx
        n = self.int_term(n)
        term = z3.simplify(self.ctx.real(term))
        names = consts_in(term) | consts_in(n)
        params = [p for p in ctx.pos_open if str(p) in names and str(p) != str(e)]
        name = ctx.fresh_name("sum").replace("!", ".")
        f = z3.Function(name, *([I] * len(params) + [R])) if params else None
        s = f(*params) if params else z3.Const(name, R)
        ctx.psums[name] = Sum(s.decl(), params, n, e, term)
        ctx.abstract("sum over positions", name)
        return s

    def pos_sum(self, it, start):
        v = self.pos_template(it, lambda x: x)
        if isinstance(v, CList):
            return start
        e = z3.Const(self.ctx.fresh_name("t"), I)
        t = v.at(e)
        if not is_num(t):
            raise Unsupported("sum of %s" % type(t).__name__)
        return self.num_op("+", start, self.pos_sum_term(v.len, e, t))

    def sum_facts(self, terms, points=()):
        """The laws of finite sums for the sums in these terms: equal summands give equal sums, a sum with one summand
        that is not zero is that summand, an empty sum is zero."""
        ctx = self.ctx
        apps, seen = [], set()

        def collect(t):
            stack = [t]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    s = ctx.psums.get(x.decl().name())
                    if s is not None:
                        apps.append((x, s))
                        ctx.abstract("sum over positions", x.decl().name())
                    stack += x.children()
        for t in terms:
            if is_z3(t):
                collect(t)
        facts, done = [], 0
        data = []
        while done < len(apps) and done < 12:
            x, s = apps[done]
            done += 1
            args = x.children()
            n = s.inst(args, s.n)
            val = lambda t, s=s, args=args: s.inst(args, s.term, (s.e, t))
            facts.append(z3.Or(n > 0, x == 0))
            for p in points:
                w = ctx.const("sw", I)
                facts.append(z3.Or(x == val(p), p < 0, p >= n, z3.And(w >= 0, w < n, w != p, val(w) != 0)))
                collect(val(p))
            for y, m, val2 in data:
                w = ctx.const("sw", I)
                facts.append(z3.Or(x == y, n != m, z3.And(w >= 0, w < n, val(w) != val2(w))))
                collect(val(w))
            data.append((x, n, val))
        for f in facts:
            ctx.assume(f, "ax")

    # ------------------------------------------------------------ loops
    def pos_for(self, s, env, it):
        """for-loop over positions that appends one value a round to lists that start empty, adds to numbers, and writes
        elements at its own position."""
        for axis in (0, 1, ADD):
            try:
                return self.pos_for_axis(s, env, it, axis)
            except NoAxis:
                continue
        raise Unsupported("a loop over positions that writes elements at other positions")

    def pos_progress(self, base, h, e, axis):
        """A list in the middle of the loop: at the loop's position as before the loop, elsewhere anything."""
        t = self.int_term
        if axis == ADD:
            if not self.pos_rows(base):
                return PRep(base.len, lambda i: h(t(i)), base.origin, base.own)
            return PRep(base.len, lambda i: PRep(base.at(i).len, lambda j: h(t(i), t(j)), base.at(i).origin, base.at(i).own),
                        base.origin, base.own)
        if not self.pos_rows(base):
            if axis:
                raise NoAxis()
            return PRep(base.len, lambda i: z3.If(t(i) == e, self.ctx.real(base.at(i)), h(t(i))), base.origin, base.own)

        def row(i):
            b = base.at(i)
            return PRep(b.len, lambda j: z3.If((t(i), t(j))[axis] == e, self.ctx.real(b.at(j)), h(t(i), t(j))), b.origin, b.own)
        return PRep(base.len, row, base.origin, base.own)

    def pos_for_axis(self, s, env, it, axis):
        ctx = self.ctx
        if s.orelse:
            raise Unsupported("else of a loop over positions")
        stored = {x.id for b in s.body + [s.target] for x in ast.walk(b) if isinstance(x, ast.Name) and not
                  isinstance(x.ctx, ast.Load)}
        accs = {}
        clock = ctx.clock
        probes, grids, mids = [], {}, {}
        own = {}
        local = [k for k in sorted(stored) if k in env.slots]
        here = []
        for k in local:
            v = env.slots[k]
            if is_num(v):
                accs[k] = ctx.const("acc", R if is_real(v) else I)

        def body(v):
            for k in local:
                ctx.put(env, k, accs[k] if k in accs else Poison("variable %s assigned in a loop" % k))
            for l in probes:
                ctx.setrep(l, Probe())
            for l in grids:
                mids[l] = self.pos_progress(grids[l][0], grids[l][1], here[-1], axis)
                ctx.setrep(l, mids[l])
            self.assign(s.target, v(), env)
            r = self.exec_block(s.body, env)
            if r is not None and r != ("cont",):
                raise Unsupported("loop over positions left early")
            adds, seen = [], set()
            for l in probes:
                if not isinstance(l.rep, Probe) or len(l.rep.added) != 1:
                    raise Unsupported("a list that does not get one element a round")
                x = l.rep.added[0]
                own[l] = self.pos_fresh(x, clock) and own.get(l, True)
                if isinstance(x, ListV) and id(x) in seen:
                    ctx.alias_rows = True
                seen.add(id(x))
                adds.append(self.pos_snap(x))
            ends = []
            for k in accs:
                x = env.slots.get(k)
                if not is_num(x):
                    ends.append(None)
                    continue
                x = self.int_term(x) if isinstance(x, int) else self.ctx.real(x) if isinstance(x, Fraction) else x
                a = accs[k]
                g = z3.simplify(x - a) if x.sort() == a.sort() else z3.simplify(self.ctx.real(x) - self.ctx.real(a))
                ends.append(g)
            for l in grids:
                if not isinstance(l.rep, PRep):
                    raise Unsupported("a list that is replaced in a loop over positions")
            return (tuple(adds), tuple(ends), tuple(l.rep for l in grids))
        for rounds in range(5):
            e, n, good, written = self.pos_round(it, body, accs=list(accs.values()) + [g[1] for g in grids.values()], here=here)
            new = []
            for (_, slot), m in written.items():
                if m is env and slot in stored:
                    continue
                if isinstance(m, ListV) and slot == "rep":
                    if m not in probes and m not in grids:
                        new.append(m)
                    continue
                if isinstance(m, Env) and m.birth > clock:
                    continue
                raise Unsupported("a loop over positions that writes %s" % type(m).__name__)
            if not new:
                break
            for l in new:
                if isinstance(l.rep, CList) and not l.rep.items:
                    probes.append(l)
                    continue
                b = l.rep
                if isinstance(b, CList) and all(is_num(x) for x in b.items):
                    b = PRep(len(b.items), self.slist_rep(b).at)
                if not isinstance(b, PRep):
                    raise Unsupported("a loop over positions that changes a list that is not empty")
                two = self.pos_rows(b)
                x = b.at(z3.Const("pos?", I))
                if two and not isinstance(x, PRep) or not is_num(x.at(z3.Const("pos?", I)) if two else x):
                    raise Unsupported("a loop that writes a list of this kind")
                if axis == 1 and not two:
                    raise NoAxis()
                grids[l] = (b, ctx.func_("elsewhere", *([I] * (1 + two) + [R])), two)
        else:
            raise Unsupported("loop over positions does not stabilise")
        results = {}
        if good:
            names = set(str(a) for a in accs.values())
            other = set(g[1].name() for g in grids.values())
            for x, l in enumerate(grids):
                results[l] = self.pos_written(e, n, [(v[2][x], c) for v, c in good], grids[l], axis, names | other)
            names |= other
            v = self.pos_join([((a, tuple(z3.RealVal(0) if g is None else self.ctx.real(g) for g in gs)), c)
                               for (a, gs, _), c in good])
            adds, ends = v
            dead = set(i for i in range(len(accs)) for (a, gs, _), c in good if gs[i] is None)
            if self.pos_consts(adds, set()) & names or any(names & self.pos_consts(c, set()) for _, c in good if is_z3(c)):
                raise Unsupported("a list that depends on an accumulator")
            for l, t in zip(probes, adds):
                ctx.setrep(l, PRep(n, lambda i, t=t: self.pos_subst(t, [(e, self.int_term(i))]), None, own[l]))
            for l in grids:
                ctx.setrep(l, results[l])
        for k in stored:
            if k in accs and good:
                j = list(accs).index(k)
                g = ends[j]
                if j in dead or self.pos_consts(g, set()) & names:
                    ctx.put(env, k, Poison("variable %s assigned in a loop" % k))
                    continue
                old = env.slots[k]
                t = z3.Const(ctx.fresh_name("t"), I)
                ctx.put(env, k, self.num_op("+", old, self.pos_sum_term(n, t, z3.substitute(g, (e, t)))))
            elif k in accs:
                pass
            else:
                ctx.put(env, k, Poison("variable %s assigned in a loop" % k))
        return None

    def pos_written(self, e, n, ends, grid, axis, names):
        """What a list becomes that every round writes at its own position only."""
        from .loops import consts_in
        ctx, t = self.ctx, self.int_term
        base, h, two = grid
        ws = [ctx.const("w", I) for _ in range(1 + two)]
        if axis == ADD:
            return self.pos_added(e, n, ends, grid, ws, names)
        dom = [ws[0] >= 0, ws[0] < t(base.len)] + ([ws[1] >= 0, ws[1] < t(base.at(ws[0]).len)] if two else [])
        r = None
        for rep, c in reversed(ends):
            x = ctx.real(rep.at(ws[0]).at(ws[1]) if two else rep.at(ws[0]))
            if ctx.check(zb(c), e >= 0, e < n, ws[axis] != e, x != h(*ws), *dom) != z3.unsat:
                raise NoAxis()
            r = x if r is None else z3.If(zb(c), x, r)
        r = z3.simplify(z3.substitute(r, (ws[axis], e)))
        if consts_in(r) & names:
            raise Unsupported("a loop that reads elements that other rounds write")

        def cell(idx, was):
            p = t(idx[axis])
            return z3.simplify(z3.If(z3.And(p >= 0, p < n), z3.substitute(r, *(list(zip(ws, [t(i) for i in idx])) + [(e, p)])),
                                     ctx.real(was)))
        if not two:
            return PRep(base.len, lambda i: cell([i], base.at(i)), base.origin, base.own)

        def row(i):
            b = base.at(i)
            return PRep(b.len, lambda j: cell([i, j], b.at(j)), b.origin, b.own)
        return PRep(base.len, row, base.origin, base.own)

    def pos_added(self, e, n, ends, grid, ws, names):
        """What a list becomes to which every round adds something that does not depend on the other rounds."""
        from .loops import consts_in
        ctx, t = self.ctx, self.int_term
        base, h, two = grid

        def equations(c):
            if z3.is_and(c):
                return [q for x in c.children() for q in equations(x)]
            if z3.is_eq(c):
                a, b = c.children()
                return [(w, y) for w in ws for x, y in ((a, b), (b, a)) if x.eq(w)]
            return []

        def delta(x, eqs):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c, a, b = x.children()
                return z3.If(c, delta(a, eqs + equations(c)), delta(b, eqs))
            d = z3.simplify(z3.substitute(x - h(*ws), *eqs)) if eqs else z3.simplify(x - h(*ws))
            if consts_in(d) & names:
                raise NoAxis()
            return d

        def total(d):
            if z3.is_app_of(d, z3.Z3_OP_ITE) and str(e) not in consts_in(d.children()[0]):
                c, a, b = d.children()
                return z3.If(c, total(a), total(b))
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return d
            u = z3.Const(ctx.fresh_name("t"), I)
            return self.pos_sum_term(n, u, z3.substitute(d, (e, u)))
        r = None
        for rep, c in reversed(ends):
            if is_z3(zb(c)) and consts_in(zb(c)) & names:
                raise NoAxis()
            x = z3.simplify(ctx.real(rep.at(ws[0]).at(ws[1]) if two else rep.at(ws[0])))
            d = delta(x, [])
            r = d if r is None else z3.If(zb(c), d, r)
        inside = ctx.pos_open
        ctx.pos_open = inside + ws
        try:
            r = total(z3.simplify(r))
        finally:
            ctx.pos_open = inside

        def cell(idx, was):
            return z3.simplify(ctx.real(was) + z3.substitute(r, *list(zip(ws, [t(i) for i in idx]))))
        if not two:
            return PRep(base.len, lambda i: cell([i], base.at(i)), base.origin, base.own)

        def row(i):
            b = base.at(i)
            return PRep(b.len, lambda j: cell([i, j], b.at(j)), b.origin, b.own)
        return PRep(base.len, row, base.origin, base.own)

    # ------------------------------------------------------------ linear systems
    def pos_solve(self, a, b):
        """numpy.linalg.solve on a square matrix of any size (trusted): X with A X = B.  Recorded for `solve_facts`."""
        ctx = self.ctx
        if not isinstance(a, PRep) or not isinstance(b, PRep):
            raise Unsupported("linear system of mixed shapes")
        i = z3.Const("pos?", I)
        ra, rb = a.at(i), b.at(i)
        if not isinstance(ra, PRep) or not isinstance(rb, PRep):
            raise Unsupported("linear system of this shape")
        n = a.len
        if ctx.check(zb(Not(And(self.num_cmp("==", ra.len, n), self.num_cmp("==", b.len, n))))) != z3.unsat:
            raise Unsupported("linear system that may not be square")
        if a.origin not in ctx.invertible:
            raise Unsupported("linear system that may be singular")
        x = ctx.func_("solution", I, I, R)
        ctx.solutions.append((a, b, x, n))
        return PRep(n, lambda i: PRep(rb.len, lambda j: x(self.int_term(i), self.int_term(j))))

    def solve_facts(self, i, j):
        """A X = B at one position, for every linear system solved on this path."""
        for a, b, x, n in self.ctx.solutions:
            t = z3.Const(self.ctx.fresh_name("t"), I)
            s = self.pos_sum_term(n, t, self.num_op("*", a.at(i).at(t), x(t, j)))
            self.ctx.assume(zb(self.num_cmp("==", s, b.at(i).at(j))), "ax")
            yield s
