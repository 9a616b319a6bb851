from cmodel import *
BOUND = "configurations of up to 6 points with up to 5 shared, congruent or not, exact coincidences"


def cases(S):
    r = S.rng
    while True:
        pool = name_pool(S, 8)
        r.shuffle(pool)
        ns = min(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]), len(pool))
        rest = pool[ns:]
        k = r.randint(0, min(3, len(rest)))
        own, new = rest[:k], rest[k:k + r.randint(0, 3)]
        names = pool[:ns] + own + new
        pts = dict(zip(map(repr, names), coords(S, len(names))))
        m = motion(S)
        a = [[n, pts[repr(n)]] for n in pool[:ns] + own]
        congruent = r.random() < .7
        if congruent:
            b = [[n, move(pts[repr(n)], m)] for n in pool[:ns] + new]
        else:
            b = [[n, p] for n, p in zip(pool[:ns] + new, coords(S, ns + len(new)))]
        r.shuffle(a)
        r.shuffle(b)
        if r.random() < .05:
            yield {"a": a, "b": a, "m": [0.0, 0.0, 0.0], "ua": False, "ub": False, "self": True}
        yield {"a": a, "b": b, "m": m if congruent else None, "ua": r.random() < .15, "ub": r.random() < .15}


def check(inp):
    a = conf(inp["a"])
    b = a if inp.get("self") else conf(inp["b"])
    a.underconstrained, b.underconstrained = inp["ua"], inp["ub"]
    A, B = snap(a), snap(b)
    c, under = a.merge(b)
    unchanged(a, A, "this configuration")
    unchanged(b, B, "the other configuration")
    P = points(c)
    need(set(P) == set(A[0]) | set(B[0]), "names of the merge: %r", list(P))
    for n in A[0]:
        need(P[n] == A[0][n], "point %r of this configuration moves to %r", n, P[n])
    shared = [n for n in A[0] if n in B[0]]
    new = [n for n in B[0] if n not in A[0]]
    apart = [(p, q) for p in shared for q in shared if dist(A[0][p], A[0][q]) > 2e-8 and dist(B[0][p], B[0][q]) > 2e-8]
    want = inp["ua"] or inp["ub"] or not shared or (len(shared) == 1 and len(A[0]) > 1 and len(B[0]) > 1) or \
        (len(shared) > 1 and not apart)
    near = [1 for X in (A, B) for p in shared for q in shared if 0 < dist(X[0][p], X[0][q]) < 1e-3]
    if not near:
        need(bool(under) == bool(want), "reported underconstrained %r, expected %r", under, want)
    need(c.underconstrained == under, "the merged configuration carries %r, reported %r", c.underconstrained, under)
    tol = 1e-7
    # one rigid, orientation-preserving motion for all new points
    for i, p in enumerate(new):
        for q in new[:i]:
            need(abs(dist(P[p], P[q]) - dist(B[0][p], B[0][q])) <= tol, "the distance of %r and %r changes", p, q)
            for s in new[:i]:
                x = lambda D: (D[q][0] - D[p][0]) * (D[s][1] - D[p][1]) - (D[q][1] - D[p][1]) * (D[s][0] - D[p][0])
                need(abs(x(P) - x(B[0])) <= 100 * tol, "the orientation of %r, %r, %r changes", p, q, s)
    exact = inp["m"] is not None and apart and not near
    if exact:
        # undo the known motion
        th, dx, dy = inp["m"]
        cs, sn = math.cos(-th), math.sin(-th)
        for p in new:
            x, y = B[0][p][0] - dx, B[0][p][1] - dy
            w = (cs * x - sn * y, sn * x + cs * y)
            need(dist(w, P[p]) <= tol, "%r is placed at %r, expected %r", p, P[p], w)
    elif len(shared) == 1 or (inp["m"] is not None and not near and shared):
        s = shared[0]
        for p in new:
            need(abs(dist(P[p], P[s]) - dist(B[0][p], B[0][s])) <= tol, "%r does not keep its distance from the shared %r", p, s)
    t, u2 = a.transformation_matrix(b)
    e = [list(map(float, r)) for r in t.elements]
    need(u2 == under, "transformation_matrix reports %r", u2)
    k = e[2][2]
    need(abs(e[2][0]) <= 1e-9 and abs(e[2][1]) <= 1e-9 and abs(k) > 1e-9, "the transform is not affine: %r", e)
    (p, q), (s, w) = [x / k for x in e[0][:2]], [x / k for x in e[1][:2]]
    need(abs(p - w) <= 1e-7 and abs(q + s) <= 1e-7 and abs(p * p + q * q - 1) <= 1e-7, "the transform is not a rigid motion: %r", e)
