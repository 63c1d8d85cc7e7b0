"""Whole runs with every ready-made method along orbits that are known exactly."""
from vlib import *
import math

TURNS = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
BENDS = [(24, 0), (30, 18), (40, 32), (51, 45), (51, -45), (40, -32), (30, -18)]
SLOPES = [0, 1, 2, 3, 4, -4, -3, -2, -1]
FRAMES = [((15, 0, 0), (0, 15, 0)), ((0, 0, 15), (15, 0, 0)), ((9, 12, 0), (-12, 9, 0)), ((0, 9, 12), (15, 0, 0)), ((5, 10, 10), (10, 5, -10)),
          ((10, -10, 5), (10, 5, -10)), ((0, -15, 0), (12, 0, 9)), ((0, 15, 0), (15, 0, 0))]
RING = {2: .25, 3: 1 / math.sqrt(3), 4: .25 + 1 / math.sqrt(2), 6: 1.25 + 1 / math.sqrt(3)}


def orbit(typ, a2, en, ed, bn, nn, nd):
    return dict(type=typ, a2=a2, en=en, ed=ed, bn=bn, nn=nn, nd=nd)


ELL = [(3, 5, 4), (0, 1, 1), (4, 5, 3), (5, 13, 12)]
HYP = [(5, 4, 3), (5, 3, 4), (17, 8, 15)]
# size in halves, mean motion, and what it takes: mu = n^2 a^3
SIZES = [(8, 1, 4, 4), (4, 1, 1, 8), (2, 1, 1, 1), (2, 2, 1, 4), (4, 1, 2, 2), (6, 1, 3, 3), (8, 1, 2, 16)]
PAR = [(2, 1, 1, 2), (4, 1, 1, 16), (4, 1, 2, 4), (2, 2, 1, 8)]


def place(o, p):
    a, e, b, n = o["a2"] / 2, o["en"] / o["ed"], o["bn"] / o["ed"], o["nn"] / o["nd"]
    if o["type"] == "ellipse":
        c, s = TURNS[p][0] / 5, TURNS[p][1] / 5
        E = math.atan2(s, c) % (2 * math.pi)
        k = n / (1 - e * c)
        return (a * (c - e), a * b * s), (-a * s * k, a * b * c * k), (E - e * s) / n
    if o["type"] == "hyperbola":
        c, s = BENDS[p][0] / 24, BENDS[p][1] / 24
        H = math.asinh(s)
        k = n / (e * c - 1)
        return (a * (e - c), a * b * s), (-a * s * k, a * b * c * k), (e * s - H) / n
    D = SLOPES[p] / 2
    k = n / (1 + D * D)
    return (a * (1 - D * D), 2 * a * D), (-2 * a * D * k, 2 * a * k), (D + D ** 3 / 3) / n


def configuration(rng, mu, most):
    kinds = ["pair"] * 3 + ["triangle"] + ["ring"] * (most > 3)
    while True:
        k = rng.choice(kinds) if most > 2 else "pair"
        if k == "pair" and mu > 1:
            m1 = rng.randint(1, mu - 1)
            m = [m1, mu - m1]
            return dict(kind="pair", m=m), m, [(-m[1] / mu, 0), (m[0] / mu, 0)]
        if k == "triangle" and mu > 2:
            a, b = sorted(rng.sample(range(1, mu), 2))
            m = [a, b - a, mu - b]
            v = [(0, 0), (1, 0), (.5, math.sqrt(.75))]
            g = [sum(m[i] * v[i][q] for i in range(3)) / mu for q in (0, 1)]
            return dict(kind="triangle", m=m), m, [(x - g[0], y - g[1]) for x, y in v]
        if k == "ring":
            N = rng.choice([q for q in (2, 3, 4, 6) if q < most])
            w = mu / rng.choice((16, 32)) / N          # a light ring stays in shape
            c = [(math.cos(2 * math.pi * i / N), math.sin(2 * math.pi * i / N)) for i in range(N)]
            return dict(kind="ring", N=N, m=[0]), [w] * N + [mu - w * RING[N]], c + [(0, 0)]


# name: (order class)
def traits(name):
    base = name.split("/")[0].split("_Ext")[0].replace("_Plus", "").replace("Const_", "").replace("_Chain", "").replace("AR_", "").replace("Chain_", "")
    order = int(base[3:]) if base.startswith("Sym") else 12
    return order, name.startswith("Const_")


def scenario(rng, name):
    order, const = traits(name)
    low = order == 2 or (const and order == 4)
    force = "field" if "/field" in name else "gyro" if "/gyro" in name else "free"
    if "/both" in name:
        force = rng.choice(("field", "gyro"))
    typ = rng.choice(("ellipse", "ellipse", "ellipse", "hyperbola", "parabola"))
    if low or (const and "Radau" in name):
        typ = "ellipse"
    most = 2 if low or (const and "Radau" in name) else 3 if "Radau" in name and "/" in name else 7
    if typ == "parabola":
        a2, nn, nd, mu = rng.choice(PAR)
        o = orbit(typ, a2, 1, 1, 0, nn, nd)
        count = len(SLOPES)
    else:
        en, ed, bn = rng.choice((ELL if typ == "ellipse" else HYP))
        while en / ed > (.5 if order == 2 else .7 if low or (const and "Radau" in name) else 1) and typ == "ellipse":
            en, ed, bn = rng.choice(ELL)
        a2, nn, nd, mu = rng.choice([x for x in SIZES if x[3] > 1] if most < 7 else SIZES)
        o = orbit(typ, a2, en, ed, bn, nn, nd)
        count = len(TURNS) if typ == "ellipse" else len(BENDS)
    conf, m, seats = configuration(rng, mu, most)
    n = len(m)
    role = rng.sample(range(n), n)
    P, Q = rng.choice(FRAMES)
    X0 = [rng.randint(-3, 3) for _ in range(3)]
    V0 = [rng.choice((0, 0, 1, -1)) for _ in range(3)] if force != "gyro" else [rng.randint(-2, 2) for _ in range(3)]
    t0 = rng.choice((0, 8, 32))
    g = [rng.randint(-2, 2) for _ in range(3)] if force != "free" else [0, 0, 0]

    def at(p, turn):
        z, w, t = place(o, p)
        return z, w, t + turn * 2 * math.pi * nd / nn
    p, turn = rng.randrange(count), 0
    z, w, ts = at(p, turn)
    inplane = lambda u: [u[0] * P[k] / 15 + u[1] * Q[k] / 15 for k in range(3)]
    times = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    # the centre of the seats of a ring is that of the masses
    bodies = []
    for r in role:
        x, v = inplane(times(z, seats[r])), inplane(times(w, seats[r]))
        bodies += [m[r], *[x[k] + X0[k] for k in range(3)], *[v[k] + V0[k] for k in range(3)]]
    places, targets = [dict(p=p + 1, turn=turn)], []
    last = t0
    for _ in range(rng.randint(1, 2 if low else 3)):
        for _ in range(200):
            if typ == "ellipse":
                q, k = rng.randrange(count), rng.choice((0, 0, 1) if not low else (0,))
                k += turn if rng.random() < .7 else 0
            else:
                q, k = rng.randrange(count), 0
            t = t0 + at(q, k)[2] - ts
            if (q, k) != (p, turn) and t >= 1 and 40 >= abs(t - t0) and abs(t - last) > .05 and (n == 2 or abs(t - t0) <= 10 * math.pi * nd / nn):
                break
        else:
            break
        p, turn, last = q, k, t
        places.append(dict(p=p + 1, turn=turn))
        targets.append(t)
    if not targets:
        return scenario(rng, name)
    scale = nd / nn * (1 - o["en"] / o["ed"] * .9 if typ == "ellipse" else .4 if typ == "hyperbola" else .5)
    if const:
        rtol, h = 1e-13, scale * {2: 1 / 2048, 4: 1 / 512, 6: 1 / 200, 8: 1 / 128, 10: 1 / 64, 12: 1 / 250}[order]
    else:
        rtol, h = {2: 3e-12, 4: 1e-12}.get(order, 1e-13), rng.choice((0, 0, scale / 50, scale / 5000))
    tol = 60 if low or (const and order == 6) else 10
    if "/gyro" in name or "/both" in name:
        rtol = 1e-12
    atol = rtol     # else rounding noise about zero (of sums that cancel) would have to be resolved
    sc = [name, n, t0, rtol, atol, repr(h), *[repr(x / 32) for x in (g if force == "field" else [0] * 3)], *[repr(x / 32) for x in (g if force == "gyro" else [0] * 3)],
          *map(repr, bodies), "legs", len(targets), *map(repr, targets)]
    meta = dict(method=name, o=o, c=conf, f=dict(P=P, Q=Q), role=[r + 1 for r in role], X0=X0, V0=V0, g=g, force=force, t0=t0, tol=tol,
                ext="_Ext" in name, plus="Plus" in name,
                regular="AR_" in name or name.startswith("Default"))
    return sc, meta, places


# steps per turn at which halving shows the order and nothing else
STEPS = {2: (400, 400), 4: (200, 200), 6: (120, 60), 8: (160, 20), 10: (48, 8)}


def kepler(M, e):
    E = M + e * math.sin(M)
    for _ in range(60):
        E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
    return E


def stretch(rng, name):
    """The same stretch of an orbit with a step and half of it."""
    order, _ = traits(name)
    o = orbit("ellipse", *rng.choice([x for x in SIZES if x[3] > 1])[:1], 5, 13, 12, 1, 1)
    mu = rng.choice((2, 3, 4, 8))
    a = o["a2"] / 2
    n = math.sqrt(mu / a ** 3)
    m1 = rng.randint(1, mu - 1)
    m, seats = [m1, mu - m1], [-(mu - m1) / mu, m1 / mu]
    P, Q = rng.choice(FRAMES)
    x, v = -a * (1 + 5 / 13), -a * n * (12 / 13) / (1 + 5 / 13)      # from apoapsis, in turns of about 1
    bodies = []
    for k in (0, 1):
        bodies += [m[k], *[x * P[i] / 15 * seats[k] for i in range(3)], *[v * Q[i] / 15 * seats[k] for i in range(3)]]
    t = 2 * math.pi / n * rng.choice((.8, .85, .9))
    N = STEPS[order][1 if "AR_" in name else 0]
    h = 2 * math.pi / n / N
    sc = [name, 2, 0, 0, 0, 0, *[0] * 6, *map(repr, bodies), "order", repr(t), 2, repr(h), repr(h / 2)]

    def slope(ends):
        err = []
        for q in ends:
            t, *d = map(float, q)
            E = kepler(n * t + math.pi, 5 / 13)
            z = (a * (math.cos(E) - 5 / 13), a * 12 / 13 * math.sin(E))
            err.append(math.sqrt(sum((d[i] - z[0] * P[i] / 15 - z[1] * Q[i] / 15) ** 2 for i in range(3))))
        if not all(err) or any(x != x for x in err):
            return 99000
        return round(1000 * math.log2(err[0] / err[1]))
    return sc, dict(method=name, order=order, ev=[], input=" ".join(map(str, sc))), slope


def check(c):
    rng = c.rng
    c.assumptions = ["orbits of central configurations (two bodies, triangles of three masses, light rings about a mass), conics with rational shape, legs between places with rational coordinates, forward and backward, up to 1.5 to 2 turns",
                     "compared at 1e-6 with 1e-5 (6e-5 for methods of low order, with tolerances and steps to match)"]
    exes = c.build_many([dict(src="c31_motion.cpp", name=f"m{p}", flags=[f"-DPART={p}"]) for p in range(8)])
    jobs = []
    for exe in exes:
        names = c.run(exe, ["list"], what="list").split()
        todo = [scenario(rng, n) for n in names for _ in range(c.pick(16, 400))]
        todo += [stretch(rng, n) for n in names if n.startswith("Const_") and "Radau" not in n for _ in range(c.pick(2, 20))]
        rng.shuffle(todo)
        k = c.pick(1, 4)
        jobs += [(exe, todo[i::k]) for i in range(k)]

    def one(job):
        exe, todo = job
        f = os.path.join(c.scratch, f"{os.path.basename(exe)}_{id(job)}.txt")
        with open(f, "w") as o:
            for s, _, _ in todo:
                print(*s, file=o)
        r = lines(c.run(exe, [f], what="run", timeout=c.pick(300, 3000)))
        if len(r) != len(todo):
            raise Violation("missing runs", dict(got=len(r), want=len(todo)))
        res = []
        for (s, meta, places), x in zip(todo, r):
            if callable(places):
                res.append(dict(meta, slopes=[places(x["ends"])]))
                continue
            if len(x["ev"]) != len(places):
                raise Violation("missing legs", dict(meta=meta, got=x))
            res.append(dict(meta, digits=x["digits"], comp=x["comp"], ev=[dict(p, **e) for p, e in zip(places, x["ev"])], input=" ".join(map(str, s))))
        return res
    with ThreadPoolExecutor(8) as ex:
        mc = ex.submit(lambda: c.model("MotionMC", workers=2))
        res = [t for ts in ex.map(one, jobs) for t in ts]
        c.extra["methods"] = len({t["method"] for t in res})
        c.validate("MotionTrace", res, par=4)
        mc.result()
