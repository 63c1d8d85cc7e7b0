"""Gravity plus external forces: who contributes, to whom, in which class."""
from vlib import *
import itertools, math
import intdist, nbody


def satellites(rng):
    """one or two massive bodies among many without mass, somewhere in the order; only distances to the massive ones need be integers"""
    cand = [p for p in itertools.product(range(-6, 7), repeat=3)]
    while True:
        big = [(0, 0, 0)]
        d = lambda p: [intdist.idist(p, b) or 0 for b in big]
        if rng.random() < .5:
            big.append(rng.choice([p for p in cand if 0 < d(p)[0] <= 6]))
        side = rng.choice(((0, 0, 0), (1, 0, 0), (1, 1, 1)))
        ok = [p for p in cand if all(0 < r <= 6 for r in d(p)) and sum(a * b for a, b in zip(p, side)) >= 0]
        n = rng.randint(4, 14)
        if len(ok) >= n:
            break
    low = rng.sample(ok, n)
    L = 1
    for p in low + big[1:]:
        for b in big:
            if p != b:
                L = math.lcm(L, intdist.idist(p, b))
    bodies = [(rng.randint(1, 4), p) for p in big] + [(0, p) for p in low]
    rng.shuffle(bodies)
    return L, bodies


def check(c):
    c.assumptions = ["positions whose mutual distances are integers between 1 and 6: inverse cubes are exact rationals",
                     "external forces are integer valued mocks of every class and combination"]
    rng = c.rng
    pool = intdist.pool(rng, (2, 3, 4, 5, 6), c.pick(40, 200), allowed=(1, 2, 3, 4, 5, 6))
    bs = [dict(src="c10_forces.cpp", name=f"f{f}{s}", flags=[f"-DFS={f}", f"-DSC={t}"]) for f, s, t in
          [(0, "d", "double"), (0, "k", "double_k"), (1, "d", "double"), (2, "d", "double"), (3, "d", "double"), (4, "d", "double"), (5, "d", "double"), (5, "k", "double_k")]]
    exes = c.build_many(bs)
    bare = exes[:2]  # without external forces, at any scale
    res = []
    for exe in exes:
        sc = []
        for k in ("simple", "chain", "logh", "clogh"):
            for _ in range(c.pick(25, 400)):
                if rng.random() < .35:
                    L, bodies = satellites(rng)
                else:
                    P = rng.choice(pool[rng.choice((2, 3, 3, 4, 4, 5, 6))])
                    L, bodies = intdist.lcm_of([P]), [(rng.randint(1, 4), p) for p in P]
                s = [k, len(bodies), L, rng.choice((0, 0, 4, 9, -5)) if exe in bare else 0]
                for m, p in bodies:
                    s += [m, *p, *[rng.randint(-3, 3) for _ in range(3)]]
                sc.append(s)
        f = os.path.join(c.scratch, "forces.txt")
        with open(f, "w") as o:
            for s in sc:
                print(*s, file=o)
        r = lines(c.run(exe, [f], what="force evaluation"))
        if len(r) != len(sc):
            raise Violation("missing evaluations", dict(got=len(r), want=len(sc)))
        res += r
    c.validate("Forces", res)
    # the systems use the classes once each in their kicks and derivatives
    for what in ("steps", "regu"):  # kicks; derivatives
        c.validate("NBodyTrace", nbody.traces(c, what, c.pick(6, 80)), name="NBody-" + what)
