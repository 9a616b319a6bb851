from common import *
from solver.geometric.constraint import *
from solver.geometry import Vector
BOUND = "random and degenerate triples, functions of 0 to 4 variables with boolean and other results"


def cases(S):
    r = S.rng
    for t in ([[0, 0], [1, 0], [0, 1]], [[0, 0], [1, 0], [2, 0]], [[0, 0]] * 3, [[0, 0], [0, 0], [1, 1]], [[1, 0], [0, 0], [0, 1]],
              [[1, 0], [0, 0], [0, -1]], [[0, 0], [1, 1], [0, 0]], [[1, 0], [0, 0], [2, 0]], [[-1, 0], [0, 0], [2, 0]]):
        for p in itertools.permutations(t):
            yield {"kind": "triple", "pts": [list(q) for q in p], "names": ["a", "b", "c"]}
    while True:
        k = r.random()
        if k < .6:
            q = [S.point() for _ in range(3)]
            if r.random() < .25:
                q[r.randrange(3)] = list(q[r.randrange(3)])
            if r.random() < .2:
                s = S.number()
                q[2] = [q[0][0] + s * (q[1][0] - q[0][0]), q[0][1] + s * (q[1][1] - q[0][1])]
            if r.random() < .2:
                q[2] = [q[1][0] - (q[0][1] - q[1][1]) , q[1][1] + (q[0][0] - q[1][0])]
            yield {"kind": "triple", "pts": q, "names": name_pool(S, 3) if r.random() < .8 else ["a", "a", "b"]}
        elif k < .8:
            n = r.randint(0, 4)
            yield {"kind": "fn", "names": [r.choice(["a", "b", "c", 1, None]) for _ in range(n)], "ret": r.choice([True, False, 1, 0, None, "x", [], 2.0])}
        else:
            a, b = r.randint(-3, 3), r.randint(-3, 3)
            yield {"kind": "plus", "names": ["a", "b", "c"] if r.random() < .6 else name_pool(S, 3), "vals": [a, b, r.choice([a + b, a + b, a - b, a, 0, a + b + 1])]}


def check(inp):
    names = [hv(x) for x in inp["names"]]
    if inp["kind"] == "plus":
        c = PlusConstraint(*names)
        m = dict(zip(names, inp["vals"]))
        need(list(c.variables()) == names, "variables %r", c.variables())
        need(bool(c.satisfied(m)) == (m[names[0]] + m[names[1]] == m[names[2]]), "plus constraint on %r: %r", m, c.satisfied(m))
        return
    if inp["kind"] == "fn":
        seen = []
        ret = inp["ret"]

        def f(*a):
            seen.append(a)
            return ret
        c = FunctionConstraint(f, names)
        need(list(c.variables()) == names, "variables %r", c.variables())
        m = {n: ("value", n) for n in names}
        m["unused"] = 0
        k = dict(m)
        got = c.satisfied(m)
        need(bool(got) == (ret is True), "satisfied is %r for result %r", got, ret)
        need(seen and all(a == tuple(("value", n) for n in names) for a in seen), "called with %r", seen)
        need(m == k, "the mapping is changed")
        c.variables().append("z")
        need(list(c.variables()) == names, "changing the returned list changes the constraint")
        return
    pts = dict(zip(names, inp["pts"]))
    a, b, c = [pts[n] for n in names]
    m = {n: Vector(*p) for n, p in pts.items()}
    sc = max(1.0, *[abs(x) for p in (a, b, c) for x in p])
    cross = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
    flat_noise = 1e-14 * sc * sc
    u, w = (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])
    lu, lw = math.hypot(*u), math.hypot(*w)
    for cls, sign in ((NotClockwiseConstraint, -1), (NotCounterClockwiseConstraint, 1)):
        k = cls(*names)
        need(list(k.variables()) == names, "variables %r", k.variables())
        got = bool(k.satisfied(m))
        s = sign * cross
        if s > 1.01e-8 + flat_noise:
            need(not got, "%s accepts cross product %r", cls.__name__, cross)
        elif s < 0.99e-8 - flat_noise:
            need(got, "%s refuses cross product %r", cls.__name__, cross)
    for cls, obtuse in ((NotObtuseConstraint, True), (NotAcuteConstraint, False)):
        k = cls(*names)
        need(list(k.variables()) == names, "variables %r", k.variables())
        got = bool(k.satisfied(m))
        if lu < 0.9e-8 or lw < 0.9e-8:
            need(got, "%s refuses a degenerate triple", cls.__name__)
            continue
        if lu < 1e-6 * sc or lw < 1e-6 * sc:
            continue
        x = math.atan2(abs(u[0] * w[1] - u[1] * w[0]), u[0] * w[0] + u[1] * w[1])
        h = math.pi / 2
        lim = 1e-8 + 1e-5 * h
        n = 1e-9 * sc / min(lu, lw) + 1e-7
        if (x > h + lim + n if obtuse else x < h - lim - n):
            need(not got, "%s accepts an angle of %r", cls.__name__, x)
        elif (x < h + lim - n if obtuse else x > h - lim + n):
            need(got, "%s refuses an angle of %r", cls.__name__, x)
