from cmodel import *
BOUND = "pairs of configurations of up to 6 points: moved, mirrored, rescaled, perturbed, renamed, reordered, far from the origin"


def cases(S):
    r = S.rng
    for n in (0, 1, 2):
        p = [["abc"[i], [float(i), 2.0]] for i in range(n)]
        yield {"a": p, "b": p}
    while True:
        names = name_pool(S, r.randint(1, 6))
        a = [[n, p] for n, p in zip(names, coords(S, len(names)))]
        m = motion(S)
        k = r.random()
        b = [[n, move(p, m)] for n, p in a]
        if k < .12:
            b = [[n, move([-p[0], p[1]], m)] for n, p in a]
        elif k < .2:
            s = r.choice([0.5, 1.01, 2, -1, 0])
            b = [[n, move([s * p[0], s * p[1]], m)] for n, p in a]
        elif k < .45:
            i = r.randrange(len(b))
            j = r.randrange(len(b))
            b[i] = [b[i][0], b[j][1] if r.random() < .4 else [b[i][1][0] + r.choice([0, .01, -1, 3]), b[i][1][1] + r.choice([0.02, 1, 0])]]
        elif k < .5:
            b = b[:-1]
        elif k < .55:
            i = r.randrange(len(b))
            b[i] = ["renamed", b[i][1]]
        elif k < .6:
            q = [p for _, p in b]
            r.shuffle(q)
            b = [[x[0], y] for x, y in zip(b, q)]
        elif k < .63:
            q = b[0][1]
            b = [[n, list(q)] for n, _ in b]
        far = r.random() < .1
        if far:                                     # far from the origin, where noise only ever makes configurations differ
            t = r.choice([1e3, 1e4, 1e5, 1e6])
            t = [t * r.uniform(-1, 1), t * r.uniform(-1, 1)]
            b = [[n, [p[0] + t[0], p[1] + t[1]]] for n, p in b]
            a = [[n, [p[0] + t[0], p[1] + t[1]]] for n, p in a]
        r.shuffle(b)
        if r.random() < .1:
            b = [[twin(S, n), p] for n, p in b]
        yield {"a": a, "b": b, "far": far}


def congruent(A, B):
    """True, False, or None when too close to call: best motion aligning B with A."""
    if set(A) != set(B):
        return False
    ns = list(A)
    if not ns:
        return True
    n = len(ns)
    ca = [sum(A[v][i] for v in ns) / n for i in (0, 1)]
    cb = [sum(B[v][i] for v in ns) / n for i in (0, 1)]
    x = sum((A[v][0] - ca[0]) * (B[v][0] - cb[0]) + (A[v][1] - ca[1]) * (B[v][1] - cb[1]) for v in ns)
    y = sum((A[v][1] - ca[1]) * (B[v][0] - cb[0]) - (A[v][0] - ca[0]) * (B[v][1] - cb[1]) for v in ns)
    h = math.hypot(x, y)
    c, s = (x / h, y / h) if h > 1e-12 else (1.0, 0.0)
    worst = 0
    for v in ns:
        u, w = B[v][0] - cb[0], B[v][1] - cb[1]
        worst = max(worst, math.hypot(c * u - s * w + ca[0] - A[v][0], s * u + c * w + ca[1] - A[v][1]))
    return True if worst < 1e-10 else False if worst > 1e-4 else None


def check(inp):
    a, b = conf(inp["a"]), conf(inp["b"])
    A, B = snap(a), snap(b)
    need(len(a.vars()) == len(inp["a"]) and all(v in a.vars() for v in A[0]), "names")
    need(hash(a) == hash(conf(list(reversed(inp["a"])))), "the hash depends on the order of insertion")
    same = set(A[0]) == set(B[0])
    if same:
        need(hash(a) == hash(b), "same names, different hashes")
    want = congruent(A[0], B[0])
    far = inp.get("far")
    if want is not None and not (far and want):
        for x, y in ((a, b), (b, a)):
            r = x == y
            need(bool(r) == want, "%s equal to %s: %r, expected %r", x, y, r, want)
            need((x != y) == (not want), "!= contradicts ==")
    need(far or a == a and a == a.copy(), "not equal to itself")
    unchanged(a, A, "the first configuration")
    unchanged(b, B, "the second configuration")
