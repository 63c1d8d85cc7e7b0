"""Chain ordering: greedy nearest-neighbour chain over all particles."""
import itertools
from vlib import *


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def points(rng, n, kind):
    while True:
        if kind == "uniform":
            P = [[rng.randint(-900, 900) for _ in range(3)] for _ in range(n)]
        elif kind == "line":
            P = [[rng.randint(-900, 900), 0, 0] for _ in range(n)]
        elif kind == "binaries":       # tight pairs far from each other (and maybe one left over)
            P = []
            while len(P) < n:
                c = [rng.randint(-800, 800) for _ in range(3)]
                P.append(c)
                if len(P) < n:
                    P.append([x + rng.randint(-12, 12) for x in c])
            rng.shuffle(P)
        elif kind == "clusters":
            P = []
            while len(P) < n:
                c = [rng.randint(-800, 800) for _ in range(3)]
                for _ in range(rng.randint(1, 4)):
                    if len(P) < n:
                        P.append([x + rng.randint(-60, 60) for x in c])
            rng.shuffle(P)
        else:                          # hierarchical: each next body about 3x farther
            P, r = [[0, 0, 0]], 2
            while len(P) < n:
                P.append([rng.choice([-1, 1]) * (r + rng.randint(0, r // 2)), rng.randint(-r // 2, r // 2), rng.randint(-r // 2, r // 2)])
                r = min(900, r * 3)
            rng.shuffle(P)
        ds = [d2(a, b) for a, b in itertools.combinations(P, 2)]
        if len(set(map(tuple, P))) == n and (kind == "tie" or len(set(ds)) == len(ds) or rng.random() < .02):
            return P


def tetra_orders(rng, want):
    """Four points whose six distances come in many different orders: small perturbations of a regular tetrahedron."""
    base = [[400, 400, 400], [400, -400, -400], [-400, 400, -400], [-400, -400, 400]]
    seen = {}
    tries = 0
    while len(seen) < want and tries < 60000:
        tries += 1
        P = [[x + rng.randint(-60, 60) for x in b] for b in base]
        ds = [d2(a, b) for a, b in itertools.combinations(P, 2)]
        if len(set(ds)) < 6:
            continue
        key = tuple(sorted(range(6), key=lambda i: ds[i]))
        seen.setdefault(key, P)
    return list(seen.values())


def check(c):
    c.assumptions = ["squared distances are computed by the specification from the same integer coordinates the code is given; they are exact in binary64",
                     "exhaustive model: all distance orders for 4 particles, all tie patterns up to the stated rank count for 4 and 5",
                     "equal distances may be resolved either way, and the direction of the chain is free"]
    c.model("ChainSelect", "ChainSelect4.cfg", required=("Seed", "Extend"))
    c.model("ChainSelect", "ChainSelect4t.cfg")
    c.model("ChainSelect", "ChainSelect5t.cfg" if c.thorough else "ChainSelect5.cfg", timeout=800)
    exe = c.build("c04_chain_index.cpp")
    rng = c.rng
    sets = tetra_orders(rng, 720)
    c.extra["distance_orders_of_4_points"] = len(sets)
    kinds = ["uniform", "line", "binaries", "clusters", "hier"]
    for n, num in c.pick(((2, 10), (3, 40), (4, 60), (5, 120), (6, 100), (8, 60), (10, 25), (14, 6)),
                         ((2, 20), (3, 200), (4, 400), (5, 1200), (6, 900), (8, 500), (10, 300), (16, 60))):
        for i in range(num):
            sets.append(points(rng, n, kinds[i % len(kinds)]))
    for i in range(c.pick(9, 60)):     # many bodies
        sets.append(points(rng, rng.choice((20, 26, 33)), ("uniform", "binaries", "clusters")[i % 3]))
    f = os.path.join(c.scratch, "sets.txt")
    with open(f, "w") as o:
        for P in sets:
            print(len(P), *(x for p in P for x in p), file=o)
    tr = lines(c.run(exe, ["raw", f]))
    if len(tr) != len(sets):
        raise Violation("the code under test returned a different number of results", dict(got=len(tr), want=len(sets)))
    g = os.path.join(c.scratch, "frames.txt")
    nsys = 0
    with open(g, "w") as o:
        for i in range(c.pick(60, 500)):
            n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8])
            m = rng.randint(2, 8)
            print(n, m, *(x for _ in range(m) for p in points(rng, n, rng.choice(kinds)) for x in p), file=o)
            nsys += m
    tr2 = lines(c.run(exe, ["system", g]))
    if len(tr2) != 2 * nsys:
        raise Violation("the chain systems reported a different number of states", dict(got=len(tr2), want=2 * nsys))
    c.validate("ChainSelectTrace", tr + tr2, accept="post")
