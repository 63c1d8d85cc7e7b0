"""Collision detection: exactly when two bodies touch, and a run stops there."""
from vlib import *

PYTH = [(1, 2, 2, 3), (2, 3, 6, 7), (0, 3, 4, 5), (4, 4, 7, 9), (6, 8, 0, 10), (3, 0, 0, 3), (1, 4, 8, 9), (2, 6, 9, 11)]


def bodies(rng):
    n = rng.choice((0, 1, 2, 2, 3, 4, 6, 7, 17) * 8 + (40, 75))
    w = rng.choice((6, 15, 60)) if n < 20 else 900
    b = [[rng.randint(0, 4)] + [rng.randint(-w, w) for _ in range(6)] for _ in range(n)]
    if n >= 2 and rng.random() < .7:  # two that touch, or just miss
        i, j = rng.sample(range(n), 2)
        *d, R = rng.choice(PYTH)
        rng.shuffle(d)
        b[j][1:4] = [x + y * rng.choice((-1, 1)) for x, y in zip(b[i][1:4], d)]
        b[i][0] = rng.randint(0, R)
        b[j][0] = R - b[i][0] - rng.choice((0, 0, 1))
        if b[j][0] < 0:
            b[i][0], b[j][0] = R, 0
    return b


def check(c):
    exe = c.build("c29_collision.cpp", flags=["-O1"])
    f = os.path.join(c.scratch, "in.txt")
    N = c.pick(1200, 20000)
    with open(f, "w") as o:
        for k in range(N):
            kind = "stcsTc"[k % 6]
            b = bodies(c.rng)
            if kind in "cT":
                while len(b) < 2:
                    b.append([c.rng.randint(0, 3)] + [c.rng.randint(-9, 9) for _ in range(6)])
                for x in b:
                    x[4:] = [c.rng.randint(-3, 3) for _ in range(3)]
                if c.rng.random() < .5:  # heading for each other
                    t = c.rng.randint(1, 6)
                    for m in (1, 2, 3):
                        b[1][m] = b[0][m] + t * (b[0][m + 3] - b[1][m + 3]) + c.rng.randint(-1, 1)
            print(kind, len(b), c.rng.randint(1, 12), c.rng.choice((1, 1, 2, 3)), *[v for x in b for v in x], file=o)
    tr = lines(c.run(exe, [f], what="collisions", timeout=300))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("CollisionMC", workers=3))
        c.validate("CollisionTrace", tr, par=5)
        fut.result()
    c.extra["runs stopped by a collision"] = sum(1 for t in tr if t["ev"] and t["ev"][0]["e"] == "at" and t["ev"][-1]["t"] != t["end"])
