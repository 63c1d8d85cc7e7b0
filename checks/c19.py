"""Groups of particles are measured and moved as mechanics defines."""
from fractions import Fraction as Fr
from vlib import *
import intdist


def masses(rng, n):
    while True:
        m = [rng.randint(1, 6) for _ in range(n)]
        if sum(m) in (2, 4, 8, 16):
            return m


def pow2(k):
    return k > 0 and k & (k - 1) == 0


def idist(a, b):
    return intdist.idist([int(x * 64) for x in a], [int(x * 64) for x in b])


def program(rng, pools, nops):
    n = rng.choice((2, 2, 3, 3, 4, 5, 6))
    m = masses(rng, n)
    P = rng.choice(pools[n])
    x = [[Fr(a) for a in p] for p in P]
    v = [[Fr(rng.randint(-5, 5)) for _ in range(3)] for _ in range(n)]
    R = [rng.randint(1, 6) for _ in range(n)]
    kind = rng.choice("ps")
    ops, fresh = [], True
    head = [kind, n] + [y for i in range(n) for y in (m[i], R[i], *map(int, x[i]), *map(int, v[i]))]
    com = lambda w, g: [sum(m[i] * w[i][k] for i in g) / sum(m[i] for i in g) for k in range(3)]
    grid = lambda w: all((y * 64).denominator == 1 and abs(y) <= 30 for y in w)

    def group():
        while True:
            g = rng.sample(range(n), rng.randint(1, n))
            if pow2(sum(m[i] for i in g)):
                return g
            if rng.random() < .1:
                return list(range(n))

    def intd(g):
        ds = [idist(x[a], x[b]) for a in g for b in g if a < b]
        return all(d and d % 64 == 0 and d // 64 <= 12 for d in ds)

    def size(g):
        if len(g) == 1:
            return R[g[0]] if kind == "s" else 0
        d2 = max(sum((p - q) ** 2 for p, q in zip(x[a], x[b])) for a in g for b in g)
        d = idist(*max(((x[a], x[b]) for a in g for b in g), key=lambda t: sum((p - q) ** 2 for p, q in zip(*t))))
        return d // 64 if d and d % 64 == 0 and d // 64 <= 12 else None
    tries = 0
    while len(ops) < nops and tries < 300:
        tries += 1
        op = rng.choice(("meas", "meas", "move", "pair", "sys" if fresh else "move"))
        form = rng.choice("vax")
        g = group()
        if op == "meas":
            if grid(com(x, g)) and grid(com(v, g)) and intd(g):
                ops.append(["meas", form, len(g), *g])
        elif op == "move":
            what = rng.choice("pvbf")
            t = [rng.randint(-9, 9) for _ in range(3)] + [rng.randint(-5, 5) for _ in range(3)]
            if what == "f":
                t = [0] * 6
            cx, cv = com(x, g), com(v, g)
            X = [[x[i][k] + t[k] - cx[k] for k in range(3)] if i in g and what in "pbf" else x[i] for i in range(n)]
            U = [[v[i][k] + t[k + 3] - cv[k] for k in range(3)] if i in g and what in "vbf" else v[i] for i in range(n)]
            if all(grid(w) for w in X + U + [cx, cv]) and all(abs(y) <= 8 for w in U for y in w):
                x, v, fresh = X, U, False
                ops.append(["move", what, form, len(g), *g, *t])
        elif op == "pair":
            h = group()
            if set(g) & set(h) or not (grid(com(x, g)) and grid(com(x, h))):
                continue
            d = idist(com(x, g), com(x, h))
            if not d or d % 64 or d // 64 > 20 or size(g) is None or size(h) is None:
                continue
            ops.append(["pair", form, len(g), *g, len(h), *h, rng.randint(1, 9), rng.randint(1, 9), rng.choice((1, 2, 4))])
        else:
            ops.append(["sys", rng.choice("scra"), len(g), *g])
    return head + [len(ops)] + [y for o in ops for y in o], [o[0] for o in ops]


def check(c):
    exe = c.build("c19_groups.cpp", flags=["-O1"])
    pools = intdist.pool(c.rng, (2, 3, 4, 5, 6), c.pick(12, 60))
    N = c.pick(700, 9000)
    f = os.path.join(c.scratch, "in.txt")
    cnt = {}
    with open(f, "w") as o:
        for k in range(N):
            p, kinds = program(c.rng, pools, c.rng.randint(4, 14))
            for x in kinds:
                cnt[x] = cnt.get(x, 0) + 1
            print(*p, file=o)
    tr = lines(c.run(exe, [f], what="groups", timeout=300))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("GroupsMC", workers=3))
        c.validate("GroupsTrace", tr, par=5)
        fut.result()
    c.extra["operations"] = cnt
