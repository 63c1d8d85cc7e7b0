"""Error estimators and the step controller."""
from math import lcm
from vlib import *


def check(c):
    exe = c.build("c27_err.cpp")
    rng = c.rng
    sc = []
    for _ in range(c.pick(900, 12000)):
        k = rng.choice(["wo", "mr", "rms"])
        form = "3" if k == "rms" else rng.choice("23")
        n = rng.choice((1, 1, 2, 3, 4, 7))
        at, rt = rng.choice([(1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2)])
        lim = 5 if k == "rms" else 9
        while True:
            v = lambda z: [rng.randint(-lim, lim) if z or rng.random() > .15 else 0 for _ in range(n)]
            a, b, d = v(at == 0), v(0), v(0)
            if at == 0:
                a = [x or rng.choice((-1, 1, 2)) for x in a]
            s = [abs(x) if form == "2" or k == "mr" else max(abs(x), abs(y)) for x, y in zip(a, b)]
            w = [at + rt * x for x in s]
            K = lcm(*(x * x if k == "rms" else x for x in w))
            if k == "mr":
                K = max(w)
            if K < (40000 if k == "rms" else 1000000):
                break
        sc.append(["est", k, form, rng.randint(0, 1), n, at, rt, K, *a, *b, *d])
    for _ in range(c.pick(400, 6000)):
        how = rng.randint(0, 7)
        form = rng.choice(["s", "p1", "pi"])
        s1, s2 = (rng.choice([.5, .7, .85, 1]), rng.choice([.5, .9, .95, 1])) if how & 1 else (.65, .95)
        s3, s4 = (rng.choice([.02, .01, .05, .5]), rng.choice([2, 4, 8])) if how & 2 else (.02, 4.0)
        kp, ki = (rng.choice([5, 7, 10]), rng.choice([2, 4, 5])) if how & 4 else (7, 4)
        order = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 20, 30])
        k = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 10, -1, -2, -3, -4, -5, -6, -10])
        sc.append(["pid", s1, s2, s3, s4, kp, ki, how, order, form, k, rng.choice([1, 1, 2, 3])])
    f = os.path.join(c.scratch, "err.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="error control"))
    if len(tr) != len(sc):
        raise Violation("missing results", dict(got=len(tr), want=len(sc)))
    c.model("ErrorControlMC", workers=4)
    c.validate("ErrorControlTrace", tr)
