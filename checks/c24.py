"""Orbital elements and coordinates describe the same orbit."""
from fractions import Fraction as Fr
from vlib import *

ANG = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3)]
INC = [(5, 0), (0, 5), (-5, 0), (3, 4), (4, 3), (-3, 4), (-4, 3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dirs():
    """integer positions of integer length"""
    return [((x, y, z), r) for r in range(1, 10) for x in range(-9, 10) for y in range(-9, 10) for z in range(-9, 10) if x * x + y * y + z * z == r * r]


def masses(rng, u):
    m = rng.randint(1, u)
    return (m, u - m)


def place(rng):
    while True:
        p, w = rng.randint(1, 12), rng.choice((1, 1, 2, 3))
        k = rng.choice((0, 0, 1, 2, 3, 4, 5, 6, 8, 12))
        i, O, om, nu = rng.choice(INC), rng.choice(ANG), rng.choice(ANG), rng.choice(ANG)
        if 20 + k * nu[0] <= 2:
            continue
        form = rng.choice(("kep", "void", "one", "many") + (("ell", "ell") if k < 4 else ()))
        a = p / (1 - (k / 4) ** 2) if k != 4 else 0
        return ["place", form, *masses(rng, p * w * w), p, w, k, repr(a), *i, *O, *om, *nu]


def meas(rng, D):
    while True:
        (dr, r), u = rng.choice(D), rng.randint(1, 16)
        mode = rng.random()
        dv = [rng.randint(-3, 3) for _ in range(3)]
        if mode < .2:       # in the reference plane
            dr, r = rng.choice([d for d in D if d[0][2] == 0])
            dv[2] = 0
        elif mode < .35:    # at an apsis
            dv = cross(dr, [rng.randint(-1, 1) for _ in range(3)])
        elif mode < .5:     # circular
            dr, r = rng.choice([d for d in D if d[1] in (1, 4, 9)])
            dv = rng.choice([v for v, s in D if s <= 3 and sum(a * b for a, b in zip(v, dr)) == 0] or [(0, 0, 0)])
            u = r * sum(x * x for x in dv)
            if rng.random() < .5:
                u = max(1, u + rng.choice((-1, 1)))
        v2, l2 = sum(x * x for x in dv), sum(x * x for x in cross(dr, dv))
        if l2 == 0 or v2 > 12 or not 2 <= u <= 64:
            continue
        h = r * v2 - 2 * u
        if 1 + l2 * h / (u * u * r) > 1600:
            continue
        if h < 0 and (h < -55 or (u * u * r ** 3) // (-h) ** 3 > 200000):
            continue
        return ["meas", rng.choice(("ret", "void")), *masses(rng, u), r, *dr, *dv]


def hyp(rng):
    while True:
        u, w, b = rng.randint(2, 16), rng.randint(1, 3), rng.randint(1, 12)
        e2 = 1 + Fr(b * b * w ** 4, u * u)
        if e2 > 1600 or (b * w) ** 2 > 1000:
            continue
        rp = float(u) / w / w * (float(e2) ** .5 - 1)
        n, d = e2.numerator, e2.denominator
        exact = int(n ** .5 + .5) ** 2 == n and int(d ** .5 + .5) ** 2 == d
        if rng.random() < .3 and exact:
            r = rp
        else:
            r = Fr(rng.randint(1, 4000), 4)
            if float(r) < rp * 1.01 or r > 900:
                continue
        return ["hyp", *masses(rng, u), w, b, *rng.choice(INC), *rng.choice(ANG), *rng.choice(ANG), repr(float(r)), rng.choice(("in", "out", "dflt"))]


def rot(rng):
    return ["rot", *[rng.randint(-9, 9) for _ in range(3)], *rng.choice(ANG), *rng.choice(ANG), *rng.choice(ANG)]


def check(c):
    exe = c.build("c24_orbits.cpp", flags=["-O1"])
    D = dirs()
    N = c.pick(1500, 25000)
    cnt = {}
    f = os.path.join(c.scratch, "in.txt")
    with open(f, "w") as o:
        for k in range(N):
            ops = []
            for _ in range(12):
                x = c.rng.choice(("place", "meas", "meas", "hyp", "rot"))
                ops.append(dict(place=place, rot=rot, hyp=hyp).get(x, lambda g: meas(g, D))(c.rng))
                cnt[x] = cnt.get(x, 0) + 1
            num = "f" if c.rng.random() < .15 else "d"
            if num == "f":
                ops = [p for p in ops if p[0] == "rot" or p[0] == "place" and p[6] <= 3]
            print(num, len(ops), *[y for p in ops for y in p], file=o)
    tr = lines(c.run(exe, [f], what="orbits", timeout=300))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: (c.model("KeplerMC", required=["Move"], workers=2), c.model("KeplerMC", cfg="KeplerMCflip", expect=("invariant", "Described"), workers=2)))
        c.validate("KeplerTrace", tr, par=5)
        fut.result()
    c.extra["conversions"] = cnt
