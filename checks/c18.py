"""Post-Newtonian, tidal and drag forces."""
from vlib import *
import intdist, math, itertools

SYS = ("simple", "chain", "logh", "clogh")
VEC = [v for v in itertools.product(range(-2, 3), repeat=3)]
INTV = [v for v in itertools.product(range(-6, 7), repeat=3) if intdist.idist(v, (0, 0, 0)) is not None and max(map(abs, v)) < 7]


def pn(rng, kind, pools):
    n = rng.choice((2, 2, 3, 3, 4))
    P = rng.choice(pools[n])
    s = [kind, rng.choice(SYS), n]
    for p in P:
        s += [rng.randint(1, 3), *p, *rng.choice(VEC), 0, 0, 0]
    return s


def tide(rng, pools):
    n = rng.choice((2, 2, 3, 4))
    P = rng.choice(pools[n])
    s = ["tide", rng.choice(SYS), n]
    for p in P:
        s += [rng.randint(1, 2), *p, *rng.choice(VEC), rng.randint(1, 2), rng.choice((0, 0, 1, 2)), rng.randint(0, 2)]
    return s


def gas(rng, pools):
    n = rng.choice((2, 3, 4))
    P = rng.choice(pools[n])
    s = ["gas", rng.choice(SYS), n]
    for p in P:
        v = rng.choice([v for v in INTV if any(v)])
        u = intdist.idist(v, (0, 0, 0))
        s += [rng.randint(1, 2), *p, *v, rng.randint(1, 2), rng.choice([k for k in (1, 2, 3, 4, u, u, u + 1) if k <= u + 1 and (k <= 4 or k > u)]), 0]
    return s


def disk(rng):
    """stars in the plane at distances R with m1/R a square, relative speeds that are integers"""
    while True:
        m1 = rng.choice((1, 4, 4, 9, 16, 20, 45, 125))
        spots = []
        for R, d in [(1, (1, 0, 0)), (1, (0, -1, 0)), (4, (0, 4, 0)), (4, (-4, 0, 0)), (9, (9, 0, 0)), (5, (3, 4, 0)), (5, (-4, 3, 0)), (5, (0, -5, 0))]:
            if m1 % R == 0 and math.isqrt(m1 // R) ** 2 == m1 // R:
                s = math.isqrt(m1 // R)
                if (s * d[0]) % R == 0 and (s * d[1]) % R == 0:
                    spots.append((d, (-s * d[1] // R, s * d[0] // R, 0)))
        if not spots:
            continue
        n = min(rng.choice((2, 2, 3, 4)), 1 + len(spots))
        o = [rng.randint(-2, 2) for _ in range(3)]
        w = [rng.randint(-2, 2) for _ in range(3)]
        s = ["disk", rng.choice(SYS), n, m1, *o, *w, 1, 0, 0]
        for d, whirl in rng.sample(spots, n - 1):
            u = rng.choice([v for v in INTV if max(map(abs, v)) <= 3])
            s += [rng.randint(1, 3), *[o[k] + d[k] for k in range(3)], *[w[k] + whirl[k] + u[k] for k in range(3)], rng.randint(1, 3), 0, 0]
        return s


MACH = [(1, 2), (3, 5), (4, 5), (5, 4), (5, 3), (2, 1), (40, 1), (1, 16)]


def alpha(rng):
    """the same with stars of one speed in the disk, a chosen part of the speed of sound"""
    while True:
        s = disk(rng)
        mode = rng.choice((-1, 0, 1))
        n, m1 = s[2], s[3]
        b = [s[3 + 10 * i:13 + 10 * i] for i in range(n)]
        w = 0
        us = []
        for p in b[1:]:
            d = [p[1 + k] - b[0][1 + k] for k in range(3)]
            R = math.isqrt(sum(x * x for x in d))
            q = math.isqrt(m1 // R)
            whirl = (-q * d[1] // R, q * d[0] // R, 0)
            us.append((R, whirl))
        w = rng.choice((1, 2, 3))
        pick = [v for v in INTV if intdist.idist(v, (0, 0, 0)) == w]
        if not pick:
            continue
        mach = rng.choice(MACH)
        g = 12288 * rng.choice((1, 2)) if mach == (1, 16) and mode >= 0 else rng.choice((1, 10, 50, 300))
        big = 0
        for p, (R, whirl) in zip(b[1:], us):
            u = rng.choice(pick) if rng.random() < .9 else (0, 0, 0)
            for k in range(3):
                p[4 + k] = b[0][4 + k] + whirl[k] + u[k]
            A = 1000 * (g // 12288) if mach == (1, 16) else 30000 * g
            if mode >= 0:
                big = max(big, A * p[0] ** 2 * m1 * 3)
            if mode <= 0:
                big = max(big, 1000 * g * p[7] ** 2 * m1 * 9)
        if big < 1.9e9:
            return ["alpha", mode, g, *mach, w, m1, rng.choice((1, 2, 5)), *s[1:3], *[x for p in b for x in p]]


def check(c):
    c.assumptions = ["mutual distances 1, 2, 3 (integers), velocities up to 2 in every component: accelerations are exact rationals, compared at 1/1000 of their own scale (c^-2, c^-4, c^-5)",
                     "stars crossing a disk are taken in its plane, where the density is M/(2 pi R^3)",
                     "drag coefficients, speeds of sound and speeds are integers"]
    rng = c.rng
    jobs = [lambda: c.model("RelativityMC", cfg=c.pick("RelativityMC.cfg", "RelativityMCt.cfg"), workers=4, timeout=3000)]
    exes = c.build_many([dict(src="c18_relativity.cpp", name="d"), dict(src="c18_relativity.cpp", name="k", flags=["-DSC=double_k"])])
    pools = intdist.pool(rng, (2, 3, 4), c.pick(40, 150), allowed=(1, 2, 3))
    res = []
    for exe in exes:
        sc = [["light"]]
        for R in (1, 2):
            for m in (1, 2, 5, 20):
                for k in range(4, 60, R):
                    x = 326 * k ** 6 * m / R ** 9
                    if 2e7 < x < 2e9 and k ** 3 < 40000:
                        sc.append(["profile", m, R, k, *rng.choice([v for v in VEC if v[2]])])
                        sc.append(["aprofile", *sc[-1][1:]])
        for _ in range(c.pick(150, 2500)):
            for k in ("pn1", "pn2", "pn25"):
                sc.append(pn(rng, k, pools))
            sc.append(tide(rng, pools))
            sc.append(gas(rng, pools))
            sc.append(disk(rng))
            sc.append(alpha(rng))
            x = rng.choice([(3, 4), (-4, 3), (0, -5), (5, 0), (5, -12), (-8, -6), (1, 0), (0, 2)])
            sc.append(["magneto", rng.randint(1, 9), rng.randint(1, 5), rng.randint(1, 3), *x, rng.randint(-3, 3), *[rng.randint(-3, 3) for _ in range(3)]])
        f = os.path.join(c.scratch, "bodies.txt")
        with open(f, "w") as o:
            for s in sc:
                print(*s, file=o)
        r = lines(c.run(exe, [f], what="force evaluation"))
        if len(r) != len(sc):
            raise Violation("missing evaluations", dict(got=len(r), want=len(sc)))
        res += r
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(j) for j in jobs]
        c.validate("RelativityTrace", res, par=4)
        for x in fs:
            x.result()
