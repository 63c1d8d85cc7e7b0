"""Scatterings are set up as the two-body problem demands."""
from fractions import Fraction as Fr
from math import gcd, sqrt
from vlib import *
import intdist


def ratio(p, q):
    g = gcd(p, q)
    return p // g, q // g


def cluster(rng, kind, P, mass=None):
    n = len(P)
    while True:
        m = [rng.randint(1, 6 if not mass or mass > 3 * n else 1) for _ in range(n)]
        if mass and n > 1:
            m[0] = mass - sum(m[1:])
        elif mass:
            m = [mass]
        if min(m) > 0:
            break
    R = rng.randint(1, 4) if kind == "s" else 0
    b = [rng.randint(-3, 3) for _ in range(3)]
    return [(m[i], R if n == 1 else rng.randint(1, 9) if kind == "s" else 0, *P[i], *[b[k] + rng.randint(-1, 1) for k in range(3)]) for i in range(n)]


def energy(c):
    M = sum(p[0] for p in c)
    k = sum(Fr(p[0], 2) * sum(v * v for v in p[5:]) for p in c) - Fr(1, 2 * M) * sum(sum(p[0] * p[5 + j] for p in c) ** 2 for j in range(3))
    return k - sum(Fr(a[0] * b[0], intdist.idist(a[2:5], b[2:5])) for i, a in enumerate(c) for b in c[:i])


def size(c):
    return c[0][1] if len(c) == 1 else max(intdist.idist(a[2:5], b[2:5]) for i, a in enumerate(c) for b in c[:i])


def larger(m1, m2, r1, r2):
    return (m1, m2, r2) if m1 * m1 * r2 ** 3 >= m2 * m2 * r1 ** 3 else (m2, m1, r1)


def factor(rng, m1, m2, r1, r2, lo=1, hi=20):
    """tidal factor whose distance is a fraction"""
    p, q, r = larger(m1, m2, r1, r2)
    a = rng.randint(lo, hi)
    fn, fd = ratio(64 * p, a ** 3 * q)
    if p * fd * 64 >= 2e9 or q * fn * a ** 3 >= 2e9:
        return None
    return fn, fd, a * r


# total masses for which a tide of one fiftieth is at a fractional distance
FIFTY = [(p, q) for p in range(1, 28) for q in range(1, 28) if round((3200 * p / q) ** (1 / 3)) ** 3 * q == 3200 * p]


def okb(M, w, rp):
    """rp in quarters"""
    num, den = rp * rp * w * w + 8 * M * rp * 4, 16 * w * w
    return num < 2e9 and num / den < 150000


def program(rng, pool, draws):
    kind = rng.choice("ps")
    mass = rng.choice(FIFTY) if rng.random() < .4 else (None, None)
    if rng.random() < .5:
        mass = mass[::-1]
    c = [cluster(rng, kind, rng.choice(pool[rng.choice([n for n in (1, 2, 2, 3, 4) if not mass[k] or n <= mass[k]])]), mass[k]) for k in range(2)]
    m1, m2 = (sum(p[0] for p in x) for x in c)
    r1, r2 = (size(x) for x in c)
    E = [energy(x) for x in c]
    ops = []
    V2 = -2 * sum(E) * (m1 + m2) / (m1 * m2)
    n = rng.randint(4, 10)
    tries = 0
    while len(ops) < n and tries < 200:
        tries += 1
        op = rng.choice("crit critc b1 b2 bc hard inc inc incc incc".split())
        w = rng.randint(1, 10)
        if op == "crit":
            a, b = rng.randint(1, 20), rng.randint(1, 20)
            e = [rng.randint(-40, 10), rng.randint(-40, 10)]
            if sum(e) < 0 and 24 * a * b * -sum(e) * (a + b) < 2e9 and 12 * a * a * b * b < 2e8:
                ops.append([op, a, b, *e])
        elif op == "critc":
            e = [24 * m * x for m, x in zip((m1, m2), E)]
            if sum(E) < 0 and V2 < 150000 and abs(sum(e)) * max(m1, m2) * (m1 + m2) < 2e9 and 12 * (m1 * m2) ** 2 < 2e8:
                ops.append([op])
        elif op == "b1":
            M, rp = rng.randint(1, 40), rng.randint(1, 80)
            if okb(M, w, rp):
                ops.append([op, M, w, rp])
        elif op == "b2":
            a, b, x, y = rng.randint(1, 12), rng.randint(1, 12), rng.randint(0, 5), rng.randint(1, 5)
            f = factor(rng, a, b, x, y)
            if f and f[2] and okb(a + b, w, f[2]):
                ops.append([op, a, b, x, y, w, f[0], f[1]])
        elif op == "bc" and max(r1, r2):
            f = factor(rng, m1, m2, r1, r2)
            if f and f[2] and okb(m1 + m2, w, f[2]):
                ops.append([op, w, f[0], f[1]])
        elif op == "hard":
            ops.append([op, *(rng.randint(1, 30) for _ in range(3)), w])
        elif op == "inc":
            a, b = rng.randint(1, 15), rng.randint(1, 15)
            bm = rng.randint(1, min(15000, 60000 // w))
            r0 = rng.randint(bm + 1, min(30000, 3 * bm + 500))
            for _ in range(draws):
                ops.append([op, a, b, w, bm, r0])
        elif op == "incc" and max(r1, r2) and mass[0]:
            p, q, r = larger(m1, m2, r1, r2)
            if (p, q) not in FIFTY:
                continue
            rp = round((3200 * p / q) ** (1 / 3)) * r
            if not okb(m1 + m2, w, rp):
                continue
            bm = sqrt((rp / 4) ** 2 + 2 * (m1 + m2) * rp / w / w)
            f = factor(rng, m1, m2, r1, r2, 1, 40)
            if f and bm * w / 2 < 300 and bm < f[2] / 4 < 300:
                for _ in range(draws):
                    ops.append([op, w, f[0], f[1]])
                if not any(o[0] == "areac" for o in ops):
                    ops.append(["areac", w, f[0], f[1], repr(bm)])
    return kind, c, ops


def check(c):
    exe = c.build("c32_scatter.cpp", flags=["-O2"])
    rng = c.rng
    pool = intdist.pool(rng, (2, 3, 4), 12, allowed=(1, 2, 3, 4, 6, 12))
    pool[1] = [[[rng.randint(-4, 4) for _ in range(3)]] for _ in range(4)]
    progs = []
    area = c.pick(3, 40)
    for k in range(c.pick(900, 15000)):
        kind, cl, ops = program(rng, pool, rng.choice((1, 2, 5)))
        if any(o[0] == "areac" for o in ops):
            area -= 1
            if area < 0:
                ops = [o for o in ops if o[0] != "areac"]
        if k < c.pick(4, 40):
            bm = rng.randint(50, 9000)
            ops.append(["area", rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 6), bm, bm + rng.randint(1, 5000)])
        progs.append((kind, cl, ops))
    cnt = {}
    for p in progs:
        for o in p[2]:
            cnt[o[0]] = cnt.get(o[0], 0) + 1
    files = []
    for k in range(6):
        f = os.path.join(c.scratch, f"in{k}.txt")
        with open(f, "w") as o:
            for kind, cl, ops in progs[k::6]:
                print(kind, *[y for x in cl for y in [len(x)] + [z for p in x for z in p]], len(ops), *[y for op in ops for y in op], file=o)
        files.append(f)
    with ThreadPoolExecutor(7) as ex:
        fut = ex.submit(lambda: c.model("ScatteringMC", required=["Boost", "Swap"], workers=2))
        res = list(ex.map(lambda f: lines(c.run(exe, [f], what="scatterings", timeout=800)), files))
        tr = [t for r in res for t in r]
        if len(tr) != len(progs):
            raise Violation("missing programs", dict(got=len(tr), want=len(progs)))
        c.validate("ScatteringTrace", tr, par=5)
        fut.result()
    c.extra["operations"] = cnt
