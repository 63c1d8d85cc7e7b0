"""Chain coordinates carry exactly the Cartesian state, in any order."""
import itertools
from vlib import *
import nbody


def coords(rng, n):
    w = rng.choice([3, 50, 100000])
    return [rng.randint(-w, w) for _ in range(3 * n)]


def check(c):
    c.assumptions = ["integer coordinates: sums and differences are exact",
                     "every pair (order, new order) for 2 to 4 bodies; random orders up to 12 bodies",
                     "the auxiliary velocity is defined again only when the next step begins"]
    c.model("ChainCoordMC", "ChainCoordMC3.cfg", required=("Reorder", "Move"), workers=8)
    c.model("ChainCoordMC", c.pick("ChainCoordMC4.cfg", "ChainCoordMC4t.cfg"), workers=8)
    exe = c.build("c05_chain.cpp")
    rng = c.rng
    sc = []
    for n in (2, 3, 4):
        for ty in "dk":
            for p in itertools.permutations(range(n)):
                s = [ty, n, "build", *p, *coords(rng, n)]
                for q in itertools.permutations(range(n)):     # away from p and back, for every q
                    s += ["rechain", *q, "rechain", *p]
                sc.append(s)
    for _ in range(c.pick(60, 1500)):
        n = rng.randint(2, 12)
        perm = lambda: rng.sample(range(n), n)
        s = [rng.choice("dk"), n, "build", *perm(), *coords(rng, n)]
        for _ in range(rng.randint(1, 8)):
            s += rng.choice([["rechain", *perm()], ["move", *coords(rng, n)]])
        sc.append(s)
    f = os.path.join(c.scratch, "chains.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="chain coordinates"))
    if len(tr) != 3 * len(sc):
        raise Violation("missing chains", dict(got=len(tr), want=3 * len(sc)))
    c.validate("ChainCoordTrace", tr)
    c.validate("NBodyTrace", nbody.traces(c, "chain", c.pick(30, 400), systems=nbody.CHAINS, forces=c.pick((0, 2, 4), (0, 1, 2, 3, 4, 5)), kahan=(4,), ns=(2, 3, 4, 5, 6, 7)))
