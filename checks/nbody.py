"""Scripts for the particle-system interpreter, shared by the checks on particle systems."""
from vlib import *

SYSTEMS = ["simple", "chain", "logh", "ttl", "none", "clogh", "cttl", "cnone"]
CHAINS = ["chain", "clogh", "cttl", "cnone"]
REGU = ["logh", "ttl", "clogh", "cttl", "none", "cnone"]


def particles(rng, n):
    while True:
        w = rng.choice([3, 5, 9])
        P = [[rng.randint(-w, w) for _ in range(3)] for _ in range(n)]
        if len(set(map(tuple, P))) == n:
            break
    res = []
    for p in P:
        res += [rng.randint(1, 3), *p, *[rng.randint(-3, 3) for _ in range(3)]]
    return res


def ops(rng, what, veldep):
    o = []
    k = rng.randint(3, 9)
    if what == "state" and rng.random() < .8:
        o += ["S", 1]
    for _ in range(k):
        x = rng.random()
        if what == "steps":
            c = rng.choice(["D", "K", "D", "K", "P", "O"]) if x < .9 else rng.choice(["S", "C", "A", "V"])
        elif what == "state":
            c = rng.choice(["D", "K", "L", "S", "C", "V", "P", "A", "D", "K"])
        elif what == "chain":
            c = rng.choice(["O", "O", "D", "L", "D", "K"])
        else:
            c = rng.choice(["D", "K", "V", "D", "K", "O", "L"])
        if c == "D":
            o += ["D", rng.choice([1, 2, 3, -1, -2, 1])]
        elif c == "K":
            o += ["K", rng.choice([2, 2, -2, 4])]
        elif c == "S":
            o += ["S", rng.choice([0, 1, 1])]
        elif c == "L":
            o += ["L", rng.randint(1, 10 ** 6)]
        elif c == "O":
            o += ["O", "P"] if veldep or rng.random() < .5 else ["O"]
        else:
            o.append(c)
    return o


def builds(forces=(0, 1, 2, 3, 4, 5), kahan=(0, 5)):
    b = [dict(src="nbody.cpp", name=f"nb{f}d", flags=[f"-DFS={f}"]) for f in forces]
    b += [dict(src="nbody.cpp", name=f"nb{f}k", flags=[f"-DFS={f}", "-DSC=double_k"]) for f in kahan]
    return b


def traces(c, what, num, systems=SYSTEMS, forces=(0, 1, 2, 3, 4, 5), kahan=(0, 5), ns=(2, 3, 3, 4, 5, 6, 7)):
    bs = builds(forces, kahan)
    exes = c.build_many(bs)
    res = []
    for b, exe in zip(bs, exes):
        fs = int(b["name"][2])
        sc = []
        for s in systems:
            for _ in range(num):
                big = s in ("logh", "ttl", "clogh", "cttl")
                n = c.rng.choice(ns) if not big or c.rng.random() < .3 else c.rng.choice([2, 2, 3])
                sc.append([s, n, c.rng.randint(-5, 5), *particles(c.rng, n), *ops(c.rng, what, fs >= 3)])
        f = os.path.join(c.scratch, b["name"] + ".txt")
        with open(f, "w") as o:
            for x in sc:
                print(*x, file=o)
        r = lines(c.run(exe, [f], what="particle systems"))
        if len(r) != len(sc):
            raise Violation("missing systems", dict(got=len(r), want=len(sc)))
        res += r
    return res
