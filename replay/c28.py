from common import *
from solver.geometric.relation import Distance, Angle
BOUND = "all pairs of distances and angles over pools of up to 4 names, strings, numbers, tuples, colliding hashes"


def cases(S):
    r = S.rng
    while True:
        pool = name_pool(S, r.choice([3, 4, 5]))
        if len(pool) < 3:
            continue
        k = r.choice(["DD", "AA", "AA", "DA"])
        b = r.sample(pool, 2 if k[1] == "D" else 3)
        yield {"a": r.sample(pool, 2 if k[0] == "D" else 3), "b": twin(S, b) if r.random() < .2 else b}


def check(inp):
    a, b = [[hv(x) for x in inp[k]] for k in "ab"]
    x = Distance(*a) if len(a) == 2 else Angle(*a)
    y = Distance(*b) if len(b) == 2 else Angle(*b)
    if len(a) == len(b) == 2:
        want = a in (b, b[::-1])
    elif len(a) == len(b) == 3:
        want = a[1] == b[1] and (a[0], a[2]) in ((b[0], b[2]), (b[2], b[0]))
    else:
        want = False
    for p, q in ((x, y), (y, x)):
        need(bool(p == q) == want, "%r == %r is %r, expected %r", inp["a"], inp["b"], p == q, want)
        need(bool(p != q) == (not want), "!= contradicts ==")
    need(x == x and hash(x) == hash(x) and not (x != x), "a relation is not equal to itself")
    if want:
        need(hash(x) == hash(y), "equal relations %r and %r have different hashes", inp["a"], inp["b"])
        need(len({x, y}) == 1, "equal relations are kept apart in a set")
    else:
        need(len({x, y}) == 2, "different relations are merged in a set")
    need(list(x.points) == a and list(y.points) == b, "comparison changes the points")
    need(not (x == "x") and not (x == None), "equal to something else")
