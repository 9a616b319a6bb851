from cmodel import *
BOUND = "configurations of up to 6 points, random homogeneous transforms, overlapping name sets"


def cases(S):
    r = S.rng
    while True:
        pool = name_pool(S, 8)
        n1 = pool[:r.randint(0, min(5, len(pool)))]
        n2 = [x for x in pool if r.random() < .5]
        a = [[n, p] for n, p in zip(n1, coords(S, len(n1)))]
        b = [[n, p] for n, p in zip(n2, coords(S, len(n2)))]
        t = [[S.number() for _ in range(3)] for _ in range(3)] if r.random() < .5 else \
            [[r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-9, 9)], [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-9, 9)], [0.0, 0.0, r.choice([1.0, 2.0, -3.0])]]
        yield {"a": a, "b": b, "t": t, "sel": [x for x in n1 if r.random() < .6], "ua": r.random() < .5, "ub": r.random() < .5}


def check(inp):
    src = {hv(n): Vector(*p) for n, p in inp["a"]}
    ids = {n: v for n, v in src.items()}
    a, b = Configuration(src), conf(inp["b"])
    a.underconstrained, b.underconstrained = inp["ua"], inp["ub"]
    A, B = snap(a), snap(b)
    need(A[0] == {hv(n): tuple(p) for n, p in inp["a"]}, "points of a new configuration: %r", A[0])
    # copy
    c = a.copy()
    need(c is not a and points(c) == A[0] and c.underconstrained == a.underconstrained and c == a, "copy: %r", c)
    # add
    want = dict(A[0])
    for n, p in B[0].items():
        want.setdefault(n, p)
    c = a.add(b)
    need(c is not a and c is not b and points(c) == want, "add: %r, expected %r", points(c), want)
    c = a.add(a)
    need(c is not a and points(c) == A[0], "add of itself: %r, expected %r", points(c), A[0])
    # select
    sel = [hv(x) for x in inp["sel"]]
    c2 = a.select(sel)
    need(c2 is not a and points(c2) == {n: A[0][n] for n in sel}, "select %r: %r", sel, points(c2))
    # transform
    t = Matrix([list(x) for x in inp["t"]])
    T = inp["t"]
    w, ok = {}, True
    for n, (x, y) in A[0].items():
        h = [k[0] * x + k[1] * y + k[2] for k in T]
        m = [abs(k[0] * x) + abs(k[1] * y) + abs(k[2]) for k in T]
        if abs(h[2]) < 1e-3 * max(m[2], 1):
            ok = False
            break
        w[n] = (h[0] / h[2], h[1] / h[2], 1e-8 * (1 + max(m[0], m[1]) / abs(h[2])) * max(1, m[2] / abs(h[2])))
    if ok:
        c3 = a.transform(t)
        got = points(c3)
        need(c3 is not a and set(got) == set(w), "transform changes the names")
        for n in w:
            need(abs(got[n][0] - w[n][0]) <= w[n][2] and abs(got[n][1] - w[n][1]) <= w[n][2], "transform of %r: %r, expected %r", n, got[n], w[n][:2])
        need([list(map(float, x)) for x in t.elements] == [list(map(float, x)) for x in T], "transform changes the matrix")
    for d in (a, c, c2):
        unchanged(a, A, "this configuration")
        unchanged(b, B, "the other configuration")
    need(list(src) == list(ids) and all(src[n] is ids[n] for n in ids), "the mapping is changed")
    # later changes of the mapping do not show
    src["later"] = Vector(1, 2)
    if inp["a"]:
        del src[hv(inp["a"][0][0])]
    unchanged(a, A, "this configuration (by a later change of the mapping)")
