from kmodel import *
BOUND = "all cluster sizes up to 60, some up to 65537, random names"


def cases(S):
    r = S.rng
    for n in range(0, 61):
        for k in "RBH":
            if k == "R" or n >= 3:
                yield {"c": [k] + list(range(n))}
    for n in (100, 255, 256, 257, 1000, 3000, 20000, 65537):
        for k in "RBH":
            yield {"c": [k] + list(range(n))}
    while True:
        pool = name_pool(S, r.randint(3, 12))
        if len(pool) >= 3:
            yield {"c": gen_cluster(S, pool)}


def check(inp):
    d = inp["c"]
    if not valid(d):
        return
    c = build(d)
    s = snap(c)
    n = len(set(hv(x) for x in d[1:]))
    if d[0] == "H":
        nd, na = 0, (n - 1) * (n - 2) // 2
    else:
        nd, na = (n * (n - 1) // 2 if d[0] == "R" else 0), n * (n - 1) * (n - 2) // 2
    for name, want in (("n_distances", nd), ("n_angles", na), ("n_constraints", nd + na)):
        got = getattr(c, name)()
        need(isinstance(got, int) and got == want, "%s of %s on %d points is %r, expected %d", name, d[0], n, got, want)
    need(snap(c) == s, "the cluster is changed")
