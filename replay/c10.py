from common import *
from solver.method import MultiMethod, MultiVariable, SumProdMethod
BOUND = "up to 4 inputs, up to 4 values per multi-valued input, also repeated inputs and empty collections"


class Rec(MultiMethod):
    """Gives one value per combination: the tuple of the values of its inputs (and one derived value)."""

    def multi_execute(self, inmap):
        t = tuple(inmap[v] for v in self.inputs)
        return [t, ("n", len(inmap))] if self.extra else [t]


def cases(S):
    r = S.rng
    for n in range(0, 4):
        for mask in range(1 << n):
            for sizes in itertools.product([0, 1, 2, 3], repeat=bin(mask).count("1")):
                it = iter(sizes)
                yield {"ins": [["m", i] if mask >> i & 1 else ["s", i] for i in range(n)],
                       "vals": [[10 * i + j for j in range(next(it))] if mask >> i & 1 else 10 * i for i in range(n)],
                       "as": "list", "extra": False, "outs": ["m"]}
    while True:
        n = r.randint(0, 4)
        k = r.randint(1, 4)
        ins = [[r.choice("sm"), r.randrange(k)] for _ in range(n)]
        yield {"ins": ins, "vals": [[r.choice([0, 1, 2, 3, None, "x", -1]) for _ in range(r.randint(0, 4))] if kind == "m" else
                                    r.choice([0, 1, 5, None, ""]) for kind, _ in ins],
               "as": r.choice(["list", "tuple", "set", "frozenset"]), "extra": r.random() < .5,
               "outs": r.choice([["m"], ["m"], ["m"], ["m"], [], ["s"], ["m", "m"], ["m", "s"]]), "sum": r.random() < .3,
               "label": r.choice([None, None, "same", "none"])}


def check(inp):
    label = inp.get("label")
    mv = {i: MultiVariable("m%d" % i if label is None else "m" if label == "same" else None) for i in range(6)}
    ins = [mv[i] if k == "m" else "s%d" % i for k, i in inp["ins"]]
    out = MultiVariable("out")
    outs = [out if k == "m" else "o" for k in inp["outs"]]
    if len(outs) == 2 and outs[0] is outs[1]:
        outs[1] = MultiVariable("out2")
    if outs != [out]:
        r, e = attempt(Rec, "rec", ins, outs)
        need(r == "err", "a multi-method with outputs %r is accepted", outs)
        return
    inmap = {}
    for v, x in zip(ins, inp["vals"]):
        inmap[v] = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[inp["as"]](x) if isinstance(x, list) else x
    multi = [v for i, v in enumerate(ins) if isinstance(v, MultiVariable) and v not in ins[:i]]
    if inp.get("sum") and len(ins) == 2:
        for v in ins:
            inmap[v] = type(inmap[v])(x for x in inmap[v] if isinstance(x, int)) if v in multi else 3
        m = SumProdMethod(ins[0], ins[1], out)
    else:
        m = Rec("rec", ins, outs)
        m.extra = inp["extra"]
    inmap["unused"] = 1
    inmap[out] = None
    want = set()
    for combo in itertools.product(*[list(inmap[v]) for v in multi]):
        s = {v: inmap[v] for v in ins if v not in multi}
        s.update(zip(multi, combo))
        if isinstance(m, Rec):
            want.add(tuple(s[v] for v in ins))
            if m.extra:
                want.add(("n", len(s)))
        else:
            x, y = s[ins[0]], s[ins[1]]
            want.update([x + y, x * y])
    before = {k: (type(v), list(v) if isinstance(v, (list, tuple, set, frozenset)) else v) for k, v in inmap.items()}
    got = m.execute(inmap)
    after = {k: (type(v), list(v) if isinstance(v, (list, tuple, set, frozenset)) else v) for k, v in inmap.items()}
    need(before == after, "the inputs are modified")
    need(list(got) == [out], "outputs %r", list(got))
    need(set(got[out]) == want, "result %r, expected %r", got[out], want)
    need(repr(sorted(map(repr, m.execute(inmap)[out]))) == repr(sorted(map(repr, got[out]))), "a second execution differs")
