"""Random numbers are distributed as named, within their limits."""
from vlib import *


def dist(rng, name):
    """(name, label, unit, parameters, edges)"""
    r = rng.randint
    u = rng.choice((1 / 64, 1 / 16, .25, .3, 1, 1.7, 5.0, 1e8, 1e-9))
    if name in ("uniform", "cut"):
        a = r(-400, 300)
        w = r(8, 300)
        ed = sorted({a, a + w} | {a + r(1, w - 1) for _ in range(r(4, 9))})
        return name, "uniform", u, [a, a + w], ed
    if name == "log":
        a, k = r(0, 4), r(2, 14)
        return name, "log", u, [2 ** a, 2 ** (a + k)], [2 ** (a + i) for i in range(k + 1)]
    if name == "power":
        k = r(-5, 6)
        a = r(1, 4)
        b = r(a + 1, 5)
        if k == 0:
            a, b = rng.choice(((1, 2), (1, 4), (2, 4), (1, 8), (2, 16)))
            return name, "power", u, [k, a, b], [x for x in (1, 2, 4, 8, 16) if a <= x <= b]
        return name, "power", u, [k, a, b], list(range(a, b + 1))
    if name == "normal":
        m = r(-9, 9)
        if rng.random() < .3:
            m, u = 0, .25
        return name, "normal", u, [m], [m + x for x in range(-12, 13, rng.choice((1, 2)))]
    if name == "tnormal":
        m, a, w = r(-9, 9), r(-6, 3), r(2, 8)
        if rng.random() < .3:
            m, u = 0, .25
        return name, "tnormal", u, [m + a, m + a + w, m], [m + a + x for x in range(w + 1)]
    if name == "maxwell":
        return name, "maxwell", u, [0], list(range(1, 16))
    if name == "tmaxwell":
        a, w = r(0, 8), r(2, 9)
        return name, "tmaxwell", u, [a, a + w], [a + x for x in range(w + 1)]
    if name == "ring":
        a = rng.choice((0, 0, 1, 5, 20, 40))
        return name, "uniform", 1 / 64, [a, 64], sorted({a, 64} | {r(a + 1, 63) for _ in range(7)})
    if name in ("gx", "gy"):
        return name, "normal", .25, [0], list(range(-12, 13))
    n = 12
    u = {"cosi": 1}.get(name.split("-")[0], 3.141592653589793) / n
    return name, "uniform", u, [-n, n], list(range(-n, n + 1, 2))


def show(d):
    n, lab, u, p, ed = d
    return f"{n} {lab} {u!r} {len(p)} {' '.join(map(str, p))} {len(ed)} {' '.join(map(str, ed))}"


def coarse(rng, d):
    """few inner edges only, at both ends"""
    n, lab, u, p, ed = d
    if lab in ("normal", "maxwell"):
        ed = ed[len(ed) // 3: 2 * len(ed) // 3 + 1]
    k = sorted(rng.sample(range(len(ed)), min(len(ed), 4)))
    if lab == "uniform":
        k = sorted(set(k) | {0, len(ed) - 1})
    elif lab not in ("normal", "maxwell"):
        k = range(len(ed))
    return n, lab, u, p, [ed[i] for i in k]


def script(rng):
    n = rng.randint(0, 12)
    ops = [f"new {n} " + " ".join(str(rng.randint(-6, 6)) for _ in range(n))]
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        a, b = rng.randint(-7, 7), rng.randint(-7, 7)
        ops.append(f"min {a}" if x < .1 else f"max {b}" if x < .2 else f"both {min(a, b)} {max(a, b)}" if x < .3 else "copy" if x < .36 else "draw")
    return ops


NAMES = ["uniform", "log", "power", "normal", "tnormal", "maxwell", "tmaxwell"]
ORB = [f"{q}-{f}" for q in ("cosi", "Omega", "omega", "M") for f in ("kep", "ell", "hyp", "shuf") if q != "M" or f != "hyp"]


def check(c):
    exe = c.build("c25_random.cpp", flags=["-O2"])
    rng = c.rng
    progs = []
    for rep in range(c.pick(1, 12)):
        ops = []
        for n in NAMES:
            for form in ("plain", "plain", "param", "threads"):
                ops.append(f"hist {form} " + show(dist(rng, n)))
        ops += [f"hist plain " + show(dist(rng, n)) for n in ["cut", "ring", "ring", "gx", "gy"] + ORB]
        for k in range(-5, 7) if c.thorough else ():
            d = dist(rng, "power")
            ops.append("hist plain " + show(d))
        for n in NAMES:
            for form in ("one", "threads"):
                d = coarse(rng, dist(rng, n))
                ops.append(f"pair {form} {show(d)} {show(d)}")
        for _ in range(4):
            a, b = coarse(rng, dist(rng, rng.choice(NAMES))), coarse(rng, dist(rng, rng.choice(NAMES)))
            ops.append(f"pair one {show(a)} {show(b)}")
        ops.append("pair two " + show(coarse(rng, dist(rng, "gx"))) + " " + show(coarse(rng, dist(rng, "gy"))))
        a, b = ("gx", "normal", .25, [0], [-3, 0, 3]), ("gy", "normal", .25, [0], [-3, 0, 3])
        ops.append(f"pair two {show(a)} {show(b)}")
        for q in (("cosi", "Omega"), ("omega", "M")):
            a, b = (coarse(rng, dist(rng, x + "-kep")) for x in q)
            ops.append(f"pair one {show(a)} {show(b)}")
        rng.shuffle(ops)
        # samples are drawn in a few processes
        progs += [ops[i::4] for i in range(4)]
    for n in NAMES:
        progs.append([f"streams {c.pick(24, 200)} " + show(dist(rng, n)), "race " + show(dist(rng, n))])
    progs += [script(rng) for _ in range(c.pick(600, 20000))]
    files = []
    for k in range(8):
        f = os.path.join(c.scratch, f"in{k}.txt")
        with open(f, "w") as o:
            for p in progs[k::8]:
                print(len(p), *p, file=o)
        files.append(f)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda f: lines(c.run(exe, [f], what="draws", timeout=800)), files))
    tr = [t for r in res for t in r]
    if len(tr) != len(progs):
        raise Violation("missing programs", dict(got=len(tr), want=len(progs)))
    c.model("RandomMC", required=["Reject", "Accept"], workers=2)
    c.validate("RandomTrace", tr, par=4)
    c.extra["distributions_sampled"] = sum(o.startswith(("hist", "pair")) for p in progs for o in p)
    c.extra["draws_per_sample"] = 1000000
