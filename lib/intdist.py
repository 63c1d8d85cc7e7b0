"""Point sets in the integer lattice whose mutual distances are all integers."""
import math, itertools

DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 2), (2, -1, 2), (-2, 2, 1), (2, 3, 6), (3, -6, 2), (0, 3, 4), (4, 0, -3)]


def idist(a, b):
    s = sum((x - y) ** 2 for x, y in zip(a, b))
    r = math.isqrt(s)
    return r if r * r == s else None


def sets(rng, n, maxr=12, allowed=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)):
    """a random one"""
    allowed = set(allowed)
    cand = [p for p in itertools.product(range(-6, 7), repeat=3)]
    while True:
        if n > 5 or rng.random() < .35:     # along a line
            d = rng.choice(DIRS)
            L = idist(d, (0, 0, 0))
            ks = rng.sample(range(-4, 9), n)
            o = [rng.randint(-3, 3) for _ in range(3)]
            P = [tuple(o[k] + t * d[k] for k in range(3)) for t in ks]
        else:
            P = [tuple(rng.randint(-4, 4) for _ in range(3))]
            for _ in range(n - 1):
                ok = [q for q in cand if all((idist(p, q) or 0) in allowed for p in P)]
                if not ok:
                    break
                P.append(rng.choice(ok))
        if len(P) == n and len(set(P)) == n and all((idist(a, b) or 0) in allowed for a, b in itertools.combinations(P, 2)):
            return [list(p) for p in P]


def pool(rng, ns, each, **kw):
    return {n: [sets(rng, n, **kw) for _ in range(each)] for n in ns}


def lcm_of(Ps):
    L = 1
    for P in Ps:
        for a, b in itertools.combinations(P, 2):
            L = math.lcm(L, idist(a, b))
    return L
