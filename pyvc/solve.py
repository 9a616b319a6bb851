"""Discharging obligations: z3 (several strategies) and cvc5, in forked workers with hard deadlines."""
import os
import pickle
import select
import signal
import time
import z3
from .core import has_quant

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


def has_reals(fs):
    seen, stack = set(), list(fs)
    nl = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_mul(x) or z3.is_div(x):
            if sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1 or \
                    z3.is_div(x) and not z3.is_rational_value(x.children()[1]):
                nl = True
        stack.extend(x.children())
    return nl


def model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if z3.is_rational_value(v):
                    out[d.name()] = ("real", "%s/%s" % (v.numerator_as_long(), v.denominator_as_long()))
                    continue
            except Exception:
                pass
            out[d.name()] = ("term", str(v))
    return out


def relevant(hyps, goal):
    """Hypotheses connected to the goal through shared constants (a sound weakening)."""
    def consts(f):
        s, st, seen = set(), [f], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(x.decl().name())
            st.extend(x.children())
        return s
    hs = [(h, consts(h)) for h in hyps]
    live = consts(goal)
    keep = set()
    changed = True
    while changed:
        changed = False
        for i, (h, c) in enumerate(hs):
            if i not in keep and (c & live or not c):
                keep.add(i)
                live |= c
                changed = True
    return [h for i, (h, _) in enumerate(hs) if i in keep]


def try_z3(solver, fs, ms):
    solver.set("timeout", ms)
    for f in fs:
        solver.add(f)
    try:
        r = solver.check()
    except z3.Z3Exception:
        return None, None
    if r == z3.unsat:
        return z3.unsat, None
    if r == z3.sat:
        return z3.sat, solver.model()
    return z3.unknown, None


def solve_one(hyps, goal, budget):
    """(status, backend, model, reason)"""
    if z3.is_true(goal):
        return PROVED, "simplification", None, ""
    hyps = list(hyps)
    fs = hyps + [z3.Not(goal)]
    quant = any(has_quant(f) for f in fs)
    nl = has_reals(fs)
    ms = lambda s: max(200, int(1000 * s))
    refuted = None
    if not nl:
        r, m = try_z3(z3.Solver(), fs, ms(budget * 0.35))
        if r == z3.unsat:
            return PROVED, "z3", None, ""
        if r == z3.sat:
            return REFUTED, "z3", model_dict(m), "the solver found a counter-model"
        if quant:
            from .inst import ground_instances
            gi = ground_instances(fs)
            r, m = try_z3(z3.Solver(), gi, ms(budget * 0.25))
            if r == z3.unsat:
                return PROVED, "z3 after ground instantiation", None, ""
            s = z3.Solver()
            s.set("smt.mbqi", False)
            r, m = try_z3(s, fs, ms(budget * 0.15))
            if r == z3.unsat:
                return PROVED, "z3 (e-matching)", None, ""
        r, m = try_cvc5(fs, ms(budget * 0.25))
        if r == z3.unsat:
            return PROVED, "cvc5", None, ""
        return UNDECIDED, "", None, "no back end decided the obligation"
    # nonlinear real arithmetic
    rel = relevant(hyps, goal)
    r, m = try_z3(z3.Solver(), fs, ms(min(2, budget * 0.15)))
    if r == z3.unsat:
        return PROVED, "z3", None, ""
    if r == z3.sat:
        return REFUTED, "z3", model_dict(m), "the solver found a counter-model"
    from .poly import prove_poly
    if prove_poly(hyps, goal):
        return PROVED, "sympy normal form", None, ""
    if quant:
        # the instances of the hypotheses for the terms of the goal
        from .inst import goal_instances
        for wide in (False, True):
            gi = goal_instances(hyps, goal, wide=wide)
            if any(has_quant(f) for f in gi):
                continue
            r, m = try_z3(z3.Solver(), gi, ms(budget * 0.1))
            if r == z3.unsat:
                return PROVED, "z3 after ground instantiation", None, ""
            r, m = try_cvc5(gi, ms(budget * 0.15))
            if r == z3.unsat:
                return PROVED, "cvc5 after ground instantiation", None, ""
            from .roots import prepare
            for ps in prepare(gi):
                r, m = try_z3(z3.Solver(), ps, ms(budget * 0.15))
                if r == z3.unsat:
                    return PROVED, "z3 after ground instantiation, with lemmas on roots", None, ""
    if not quant:
        try:
            s = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            r, m = try_z3(s, rel + [z3.Not(goal)], ms(budget * 0.35))
            if r == z3.unsat:
                return PROVED, "z3 nlsat", None, ""
            if r == z3.sat and len(rel) == len(hyps):
                return REFUTED, "z3 nlsat", model_dict(m), "the solver found a counter-model"
        except z3.Z3Exception:
            pass
    r, m = try_cvc5(rel + [z3.Not(goal)], ms(budget * 0.3))
    if r == z3.unsat:
        return PROVED, "cvc5", None, ""
    r, m = try_z3(z3.Solver(), fs, ms(budget * 0.2))
    if r == z3.unsat:
        return PROVED, "z3", None, ""
    if r == z3.sat:
        return REFUTED, "z3", model_dict(m), "the solver found a counter-model"
    return UNDECIDED, "", None, "no back end decided the obligation"


def try_cvc5(fs, ms):
    try:
        import cvc5
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = s.to_smt2()
        txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines()
                                             if not l.startswith("(set-info") and "(check-sat)" not in l)
        tm = cvc5.TermManager()
        sol = cvc5.Solver(tm)
        sol.setOption("tlimit-per", str(ms))
        sol.setOption("produce-models", "false")
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "o")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sol, sm)
        r = sol.checkSat()
        if r.isUnsat():
            return z3.unsat, None
        return z3.unknown, None
    except BaseException:
        return None, None


class Worker(object):
    __slots__ = ("pid", "fd", "idx", "start", "buf")


def spawn(task, group=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if group:
                os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                res = task()
            except MemoryError:
                res = (UNDECIDED, "", None, "out of memory")
            except Exception as e:
                import traceback
                res = (UNDECIDED, "", None, "back end failed: %s" % traceback.format_exc()[-400:])
            data = pickle.dumps(res)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    k = Worker()
    k.pid, k.fd, k.start, k.buf = pid, r, time.time(), b""
    return k


def kill(pid, group):
    for who in ((-pid, pid) if group else (pid,)):
        try:
            os.kill(who, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def run_pool(tasks, hard, jobs=None, deadline=None, group=False):
    """Run callables in forked workers; yields (index, result or None, seconds).  deadline: a time, or a function
    that gives it; group: a worker that is stopped takes its own workers with it."""
    limit = deadline if callable(deadline) else (lambda d=deadline: d)
    jobs = jobs or min(8, os.cpu_count() or 1)
    queue = list(range(len(tasks)))
    live = {}
    while queue or live:
        deadline = limit()
        if deadline is not None and time.time() > deadline and queue:
            for i in queue:
                yield i, None, 0.0
            queue = []
        while queue and len(live) < jobs:
            i = queue.pop(0)
            k = spawn(tasks[i], group)
            k.idx = i
            live[k.fd] = k
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.2)
        now = time.time()
        for fd in rd:
            k = live[fd]
            d = os.read(fd, 1 << 16)
            if d:
                k.buf += d
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(k.pid, 0)
            try:
                res = pickle.loads(k.buf)
            except Exception:
                res = None
            yield k.idx, res, now - k.start
        for fd, k in list(live.items()):
            if now - k.start > hard or deadline is not None and now > deadline + 5:
                kill(k.pid, group)
                os.close(fd)
                os.waitpid(k.pid, 0)
                del live[fd]
                yield k.idx, None, now - k.start


def discharge(obls, budget=20, jobs=None, deadline=None):
    tasks = [(lambda o=o: solve_one(o.hyps, o.goal, budget)) for o in obls]
    for i, res, t in run_pool(tasks, budget * 1.5 + 10, jobs, deadline):
        o = obls[i]
        o.time = t
        if res is None:
            o.status, o.backend, o.model, o.reason = UNDECIDED, "", None, "time limit"
        else:
            o.status, o.backend, o.model, o.reason = res
            if o.status == REFUTED and o.approx:
                o.status, o.reason = UNDECIDED, "counter-model, but %s is not fully axiomatised" % ", ".join(o.approx)
    return obls
