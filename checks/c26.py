"""Names of files made up by the program never collide."""
from vlib import *

PRE = ("a", "b", "-", "space_", "x(1)", "run.7_", "a1")


def script(rng):
    start = rng.choice((0, 1, 951782395, 1582934398, 1704067190, 1709251190, rng.randint(0, 2000000000), rng.randint(0, 2000000000)))
    n = rng.randint(2, 20)
    pool = rng.sample(PRE, rng.randint(1, 3))
    ops = []
    t = start
    for _ in range(n):
        r = rng.random()
        if r < .2:
            x = rng.choice((1, 1, 1, 59, 3600, 86400, 40000000, -1, -3600))
            if t + x < 0 or t + x > 2040000000:
                continue
            t += x
            ops.append(("pass", "-", x))
        elif r < .3:
            ops.append((rng.choice(("make", "ext")), rng.choice(PRE), rng.choice((0, 7, 10, -3, 123456789))))
        elif r < .4:
            ops.append(("auto", "-", 1))
        else:
            ops.append(("auto", rng.choice(pool), 0))
    return [start, len(ops)] + [v for o in ops for v in o]


def check(c):
    c.assumptions = ["the time of day is replaced by one of our own, the time zone is three hours ahead; every history runs in a fresh process; names are asked for by one thread"]
    exe = c.build("c26_names.cpp")
    f = os.path.join(c.scratch, "n.txt")
    N = c.pick(1500, 20000)
    with open(f, "w") as o:
        for _ in range(N):
            print(*script(c.rng), file=o)
    tr = lines(c.run(exe, [f], what="names", timeout=300))
    if len(tr) != N:
        raise Violation("missing histories", dict(got=len(tr), want=N))
    c.model("NamesMC", workers=4)
    c.validate("NamesTrace", tr)
