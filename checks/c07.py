"""Refinement, fixed-step, Gauss-Radau and predictor-corrector iterators."""
from vlib import *

NS = [1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20]


def seq(rng, p):
    n = rng.randint(1, 6)
    w = ["seq", n]
    for _ in range(n):
        w += [int(rng.random() < .15), rng.choice([1, -1, 1]) * 5040 * rng.choice([1, 2, 3]) / 64]
        depth = rng.randint(1, 12)
        for i in range(1, 11):
            while True:
                lim = 4 * (NS[i] ** p - NS[i - 1] ** p) / NS[i - 1] ** p
                cap = 1000 if p == 2 else 4000 if p == 4 else 50
                near = [x for x in (int(lim) - 1, int(lim), int(lim) + 1, 2 * int(lim) + 3) if 0 <= x <= cap]
                e = rng.choice(near or [0]) if rng.random() < .5 else rng.randint(0, min(cap, int(3 * lim) + 4))
                if i < depth and rng.random() < .8 and e * NS[i - 1] ** p <= 4 * (NS[i] ** p - NS[i - 1] ** p):
                    e = min(cap, int(lim) + rng.randint(1, 5))
                if e * NS[i - 1] ** p != 4 * (NS[i] ** p - NS[i - 1] ** p):
                    break
            w += [e, rng.choice([1, 2, 4, 7, 8, 9, 12, 16, 32])]
    return w


def radau(rng):
    while True:
        cst = int(rng.random() < .3)
        deg = rng.sample(range(0, 15), rng.randint(1, 6))
        x = rng.randint(-3, 3)
        w = ["radau", cst, len(deg), *deg, x / 2]
        n = rng.randint(1, 6)
        ev = []
        h = None
        for _ in range(n):
            if h is None or cst:
                h = rng.choice([d for d in (-4, -3, -2, -1, 1, 2, 3, 4) if abs(x + d) <= 3])
            q = [k for k in (-4, -2, -1, 1, 2, 4) if h * k % 2 == 0 and abs(x + h + h * k // 2) <= 3 and h * k]
            if not q:
                break
            k = rng.choice(q) if not cst else 2
            ev.append((h / 2, k / 2))
            x, h = x + h, (h * k) // 2 if not cst else h
            if cst and abs(x + h) > 3:
                break
        if ev:
            w.append(len(ev))
            for e in ev:
                w += e
            return w


def ias(rng):
    deg = [0, 1] + rng.sample(range(2, 8), rng.randint(0, 4))
    if rng.random() < .5:      # more bodies, some of which hardly move
        deg += [rng.choice((0, 1, 2, 5, 7)) for _ in range(rng.randint(1, 12))]
    while len(deg) % 6:
        deg.append(rng.choice([0, 1]))
    slow = [rng.choice((2000, 1e9))] + [rng.choice((.5, .01, 0, 2000)) for _ in range(len(deg) // 6 - 1)]
    t = rng.choice([-1, -.5, 0, .5, 1])
    n = rng.randint(1, 5)
    w = ["ias", len(deg), *deg, *slow, rng.choice((1, 2, .25)), t, n]
    for _ in range(n):
        h = rng.choice([.5, 1, 1.5, -1, -.5, 2])
        na = rng.randint(1, 3)
        w += [h, na]
        for a in range(na):
            r = rng.choice([5, 8, 16, 20, 64, 80, 65, 63]) if a == na - 1 else rng.choice([1, 2, 4, 4, 4])
            ns = rng.randint(1, 5)
            pc = sorted(rng.sample(range(4, 60), ns), reverse=True)
            if rng.random() < .6:
                pc[-1] = rng.choice([0, 1, 3])
            elif ns > 1:
                pc[-1] = pc[-2] + rng.choice([0, 0, 1, 7])
            else:
                pc = [3]
            if rng.random() < .3 and pc[-1] < 4:
                pc[-1:] = [4, rng.choice([3, 4])]
            if pc[-1] >= 4 and (len(pc) < 2 or pc[-1] < pc[-2]):
                pc.append(2)
            w += [r, len(pc), *pc]
    return w


def carry(rng):
    deg = [rng.randint(0, 7) for _ in range(6 * rng.randint(1, 2))]
    x, h = rng.choice((-1, 0, .25, .5)), rng.choice((.125, .25, -.25, .03125))
    w, n = [], rng.randint(3, 7)
    head = ["carry", len(deg), *deg, x, h, n]
    for i in range(n):
        rs, g = [], h
        while rng.random() < .3 and len(rs) < 2:
            rs.append(rng.choice((2, 3, 4)))
            g = g * rs[-1] / 16
        ok = [r for r in (5, 8, 16, 20, 32, 63, 64, 65, 80, 200) if abs(x + g + g * min(r, 64) / 16) <= 1.5]
        rs.append(rng.choice(ok or [5, 8]))
        w += [len(rs)]
        for r in rs:
            w += [r, rng.randint(1, 3)]
        x, h = x + g, g * min(rs[-1], 64) / 16
    return head + w


def chained(rng):
    nd = rng.randint(1, 8)
    x = rng.randint(-3, 3)
    w, ev = ["chained", nd, x / 2], []
    h = rng.choice([d for d in (-2, -1, 1, 2) if abs(x + d) <= 4])
    for _ in range(rng.randint(1, 6)):
        x += h
        nx = rng.choice([d for d in (-2, -1, 1, 2) if abs(x + d) <= 4])
        ev += [h / 2, nx / h]
        h = nx
    return w + [len(ev) // 2] + ev


def check(c):
    c.assumptions = ["errors and step ratios come from scripted collaborators; refinement errors that tie with the tolerance after scaling are not scripted",
                     "the Gauss-Radau step is judged on right hand sides that are polynomials in time (up to degree 14; the predictor up to 7)"]
    orders = (2, 4, 6)
    exes = c.build_many([dict(src="c07_iter.cpp", name=f"it{p}", flags=[f"-DORDER={p}", "-D_GLIBCXX_ASSERTIONS"]) for p in orders])
    c.model("IteratorsMC", required=("Refine", "Sweep"), workers=8)
    rng = c.rng
    tr = []
    for p, exe in zip(orders, exes):
        sc = [seq(rng, p) for _ in range(c.pick(250, 5000))]
        if p == 2:
            sc += [radau(rng) for _ in range(c.pick(500, 8000))] + [ias(rng) for _ in range(c.pick(400, 8000))] + [chained(rng) for _ in range(c.pick(300, 6000))] + [carry(rng) for _ in range(c.pick(300, 6000))]
        f = os.path.join(c.scratch, "it.txt")
        with open(f, "w") as o:
            for s in sc:
                print(*s, file=o)
        r = lines(c.run(exe, [f], what="iterators"))
        if len(r) != len(sc):
            raise Violation("missing runs", dict(got=len(r), want=len(sc)))
        tr += r
    c.validate("IteratorsTrace", tr)
