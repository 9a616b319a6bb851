from mmodel import *
BOUND = "histories of up to 15 method-graph operations over up to 8 variables and 6 methods"
cases = histories


def check(inp):
    ms = [make(s) for s in inp["specs"]]
    mg, M = MethodGraph(), Model()
    for op in inp["ops"]:
        k = op[0]
        vals = {v: mg.get(v) for v in mg.variables()}
        if k == "add_variable":
            mg.add_variable(hv(op[1]), op[2])
            if hv(op[1]) not in M.vars:
                M.vars.append(hv(op[1]))
                need(mg.get(hv(op[1])) == op[2], "new variable %r has value %r", op[1], mg.get(hv(op[1])))
            need(all(same(mg.get(v), vals[v]) for v in vals), "adding a variable changes another")
        elif k == "rem_variable":
            r, e = attempt(mg.rem_variable, hv(op[1]))
            if hv(op[1]) in M.vars:
                need(r == "ok", "removing a variable raises %r", e)
                M.remove_var(hv(op[1]))
            else:
                need(r == "err", "removing an unknown variable is accepted")
            need(all(same(mg.get(v), vals[v]) for v in M.vars), "removing %r changes other values", op[1])
        elif k == "set":
            r, e = attempt(mg.set, hv(op[1]), op[2], prop=op[3])
            if hv(op[1]) in M.vars:
                need(r == "ok", "setting a variable raises %r", e)
            else:
                need(r == "err", "setting an unknown variable is accepted")
        elif k == "add_method":
            m = ms[op[1]]
            if m in M.met:
                mg.add_method(m, prop=op[2])
            else:
                bad = M.refuses(m)
                r, e = attempt(mg.add_method, m, prop=op[2])
                if bad:
                    need(r == "err" and type(e) in bad, "%s: %r, expected one of %r", m, e if r == "err" else "accepted",
                         sorted(b.__name__ for b in bad))
                    need(set(vals) <= set(mg.variables()), "a refused method removes a variable")
                    need(all(same(mg.get(v), vals[v]) for v in vals), "a refused method changes a value")
                    # the refused method may leave new variables of its own, without a value
                    for v in list(mg.variables()):
                        if v not in M.vars:
                            need(v in m.inputs or v in m.outputs, "a refused method adds variable %r", v)
                            need(mg.get(v) is None, "a refused method gives %r a value", v)
                            M.vars.append(v)
                else:
                    need(r == "ok", "%s is refused: %r", m, e)
                    M.met.append(m)
                    for v in m.inputs + m.outputs:
                        if v not in M.vars:
                            M.vars.append(v)
        elif k == "rem_method":
            m = ms[op[1]]
            r, e = attempt(mg.rem_method, m)
            if m in M.met:
                need(r == "ok", "removing a method raises %r", e)
                M.met.remove(m)
            else:
                need(r == "err", "removing an unknown method is accepted")
            need(all(same(mg.get(v), vals[v]) for v in M.vars), "removing a method changes values")
        elif k == "execute":
            m = ms[op[1]]
            r, e = attempt(mg.execute, m)
            need(r == ("ok" if m in M.met else "err"), "execute of %s: %r", m, e)
        elif k == "propagate":
            mg.propagate()
        else:
            mg.clear()
            need(list(mg.variables()) == [], "clear leaves variables %r", list(mg.variables()))
            M.vars = []
            M.met = [m for m in M.met if not m.inputs and not m.outputs]
            left = list(mg.methods())
            need(all(m in M.met for m in left), "clear leaves methods on removed variables")
            for m in left:
                mg.rem_method(m)
            M.met = []
        vs, mets = list(mg.variables()), list(mg.methods())
        need(len(vs) == len(M.vars) and all(v in M.vars for v in vs), "after %r: variables %r, expected %r", op, vs, M.vars)
        need(len(mets) == len(M.met) and all(any(m is n for n in M.met) for m in mets), "after %r: methods %s", op,
             [str(m) for m in mets])
        st = structure(mg)
        want = {(v, m) for m in M.met for v in m.inputs} | {(m, v) for m in M.met for v in m.outputs}
        if st is not None:
            need(st == want, "after %r: dependencies %s, expected %s", op, [tuple(map(str, e)) for e in st],
                 [tuple(map(str, e)) for e in want])
            need(set(mg._graph.vertices()) >= {x for e in want for x in e} | set(vs), "vertices missing after %r", op)
        for v in vs:
            need(len(M.owner(v)) <= 1, "harness")


def same(a, b):
    return a is b or a == b
