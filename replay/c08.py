from mmodel import *
BOUND = "histories of up to 15 method-graph operations over up to 8 variables and 6 methods"
cases = histories


def check(inp):
    ms = [make(s) for s in inp["specs"]]
    mg, M = MethodGraph(), Model()
    free = {}
    for op in inp["ops"]:
        k = op[0]
        settled = False
        if k == "add_variable":
            v = hv(op[1])
            mg.add_variable(v, op[2])
            if v not in M.vars:
                M.vars.append(v)
                free[v] = op[2]
        elif k == "rem_variable":
            v = hv(op[1])
            if v not in M.vars:
                continue
            gone = {o for m in M.met if v in m.inputs or v in m.outputs for o in m.outputs}
            vals = {o: mg.get(o) for o in M.vars}
            mg.rem_variable(v)
            M.remove_var(v)
            free.pop(v, None)
            free.update({o: vals[o] for o in gone if o != v})
        elif k == "set":
            v = hv(op[1])
            if v not in M.vars or M.owner(v):
                continue
            mg.set(v, op[2], prop=op[3])
            free[v] = op[2]
            settled = op[3]
        elif k == "add_method":
            m = ms[op[1]]
            if m in M.met:
                continue
            if M.refuses(m):
                attempt(mg.add_method, m, prop=op[2])
                for v in m.inputs + m.outputs:
                    if v not in M.vars and v in list(mg.variables()):
                        M.vars.append(v)
                        free[v] = None
                continue
            for v in m.inputs + m.outputs:
                if v not in M.vars:
                    M.vars.append(v)
                    free[v] = None
            mg.add_method(m, prop=op[2])
            M.met.append(m)
            for v in m.outputs:
                free.pop(v, None)
            settled = op[2]
        elif k == "rem_method":
            m = ms[op[1]]
            if m not in M.met:
                continue
            vals = {o: mg.get(o) for o in m.outputs}
            mg.rem_method(m)
            M.met.remove(m)
            free.update(vals)
        elif k == "execute":
            if ms[op[1]] not in M.met:
                continue
            mg.execute(ms[op[1]])
            settled = True
        elif k == "propagate":
            mg.propagate()
            settled = True
        else:
            mg.clear()
            for m in list(mg.methods()):
                mg.rem_method(m)
            M, free = Model(), {}
        vals = {v: mg.get(v) for v in M.vars}
        for v in free:
            need(vals[v] == free[v] and type(vals[v]) == type(free[v]), "after %r: free variable %r is %r, last set to %r", op, v, vals[v], free[v])
        if settled:
            need(not getattr(mg, "_changed", None), "after %r: changes of %r are pending", op, list(getattr(mg, "_changed", {})))
            for m in M.met:
                for o, x in compute(m, vals).items():
                    need(vals[o] == x, "after %r: %r is %r, but %s computes %r", op, o, vals[o], m, x)
