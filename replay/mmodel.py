"""Reference model of a method graph and random histories of its operations."""
from common import *
from solver.method import MethodGraph, Method, AddMethod, SubMethod, SetMethod, AssignMethod, \
    MethodGraphCycleException, MethodGraphDetermineException


class Fn(Method):
    """A pure method: every output is a function of the inputs; may leave outputs out or give None."""

    def __init__(self, k, inputs, outputs):
        super(Fn, self).__init__("Fn%d" % k, inputs, outputs)
        self.k = k

    def execute(self, inmap):
        return fn(self.k, [inmap[v] for v in self.inputs], self.outputs)


class Box(Method):
    """Gives the same list every time, with new contents."""

    def __init__(self, i, o):
        super(Box, self).__init__("Box", [i], [o])
        self.box = []

    def execute(self, inmap):
        self.box[:] = boxed(inmap[self.inputs[0]])
        return {self.outputs[0]: self.box}


def boxed(v):
    return [v, 1] if not isinstance(v, list) else v[:1] + [len(v)]


def fn(k, vals, outputs):
    t = 0
    for v in vals:
        if isinstance(v, list):
            v = sum(x for x in v if isinstance(x, (int, float)))
        t = t * 3 + (v if isinstance(v, (int, float)) else 1)
    t = t % 17
    if k % 4 == 1 and t % 3 == 0:
        return {}
    out = {}
    for i, o in enumerate(outputs):
        if k % 4 == 2 and (t + i) % 3 == 0:
            out[o] = None
        elif k % 4 == 3 and (t + i) % 2 == 0:
            continue
        else:
            out[o] = (t + i + k) % (2 if k % 5 == 0 else 17)
    return out


def make(spec):
    k, a = spec[0], spec[1:]
    if k == "add":
        return AddMethod(*[hv(x) for x in a])
    if k == "sub":
        return SubMethod(*[hv(x) for x in a])
    if k == "set":
        return SetMethod(hv(a[0]), a[1])
    if k == "assign":
        return AssignMethod(hv(a[0]), hv(a[1]))
    if k == "box":
        return Box(hv(a[0]), hv(a[1]))
    return Fn(a[0], [hv(x) for x in a[1]], [hv(x) for x in a[2]])


def compute(m, vals):
    """What the method computes from the values of its inputs: {output: value}, only for its outputs."""
    ins = [vals[v] for v in m.inputs]
    if any(v is None for v in ins):
        return {o: None for o in m.outputs}
    if isinstance(m, AddMethod):
        out = {m.outputs[0]: ins[0] + ins[1]}
    elif isinstance(m, SubMethod):
        out = {m.outputs[0]: ins[0] - ins[1]}
    elif isinstance(m, SetMethod):
        out = {m.outputs[0]: m._value}
    elif isinstance(m, AssignMethod):
        out = {m.outputs[0]: ins[0]}
    elif isinstance(m, Box):
        out = {m.outputs[0]: boxed(ins[0])}
    else:
        out = fn(m.k, ins, m.outputs)
    return {o: out.get(o) for o in m.outputs}


class Model(object):
    def __init__(self):
        self.vars, self.met = [], []

    def owner(self, v):
        return [m for m in self.met if v in m.outputs]

    def cyclic(self, ms):
        edges = {}
        for m in ms:
            for i in m.inputs:
                edges.setdefault(i, set()).update(m.outputs)
        for s in edges:
            seen, todo = set(), list(edges[s])
            while todo:
                x = todo.pop()
                if x == s:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += edges.get(x, ())
        return False

    def refuses(self, m):
        """Set of acceptable error types; empty when the method must be accepted."""
        out = set()
        if any(self.owner(v) for v in m.outputs):
            out.add(MethodGraphDetermineException)
        if self.cyclic(self.met + [m]):
            out.add(MethodGraphCycleException)
        return out

    def remove_var(self, v):
        self.vars.remove(v)
        self.met = [m for m in self.met if v not in m.inputs and v not in m.outputs]


def gen(S, n, setdet=False):
    """A history.  Methods are numbered in order of first use; variables are names."""
    r = S.rng
    pool = name_pool(S, r.choice([3, 4, 5, 6, 8]))
    specs, ops = [], []
    val = lambda: r.choice([0, 1, 2, 3, -1, 5, 7, None, 0, 4])

    def spec():
        k = r.choice(["add", "sub", "set", "assign", "fn", "fn", "fn"])
        p = lambda: r.choice(pool)
        if k in ("add", "sub"):
            return [k, p(), p(), p()]
        if k == "set":
            return [k, p(), val()]
        if k == "assign":
            return [k, p(), p()]
        return [k, r.randint(0, 20), [p() for _ in range(r.randint(0, 3))], [p() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]]
    for _ in range(r.choice([2, 3, 4, 6])):
        specs.append(spec())
    for _ in range(n):
        k = r.random()
        if k < 0.4:
            ops.append(["add_method", r.randrange(len(specs)), r.random() < .7])
        elif k < 0.68:
            ops.append(["set", r.choice(pool), val(), r.random() < .6])
        elif k < 0.76:
            ops.append(["add_variable", r.choice(pool), val()])
        elif k < 0.82:
            ops.append(["rem_method", r.randrange(len(specs))])
        elif k < 0.87:
            ops.append(["rem_variable", r.choice(pool)])
        elif k < 0.93:
            ops.append(["execute", r.randrange(len(specs))])
        elif k < 0.985:
            ops.append(["propagate"])
        else:
            ops.append(["clear"])
    if r.random() < .3:
        ops.append(["clear"])
    return {"specs": specs, "ops": ops}


def histories(S):
    # layered propagation: chains, diamonds, orders of addition
    for order in itertools.permutations([0, 1, 2, 3]):
        specs = [["add", "a", "b", "c"], ["sub", "c", "a", "d"], ["add", "c", "d", "e"], ["assign", "f", "e"]]
        yield {"specs": specs, "ops": [["add_variable", "a", 3], ["add_variable", "b", 4]] +
               [["add_method", i, i % 2 == 0] for i in order] +
               [["set", "a", 10, True], ["set", "b", 1, False], ["set", "a", None, False], ["propagate"], ["set", "a", 0, True],
                ["rem_method", 1], ["set", "b", 2, True], ["rem_variable", "c"], ["clear"]]}
    for t in range(6):
        specs = [["box", "a", "b"], [["fn", 4, ["b"], ["c"]], ["assign", "c", "b"]][t % 2], ["fn", 8, ["c"], ["d"]]]
        yield {"specs": specs, "ops": [["add_variable", "a", 1]] + [["add_method", i, t < 3] for i in range(3)] +
               [["set", "a", x, True] for x in (5, 7, 7, 0, t)]}
    while True:
        yield gen(S, S.rng.randint(3, 14))


def structure(mg):
    """The dependencies the graph holds, as (source, target) pairs; None when it keeps no such graph."""
    g = getattr(mg, "_graph", None)
    return None if g is None else set(g.edges())
