"""Output files hold exactly what happened."""
from vlib import *
import intdist


def wild(rng):
    return rng.choice((str(rng.randint(-9, 9)), f"{rng.randint(-999, 999)}/{rng.randint(2, 999)}", f"{rng.uniform(-1, 1)!r}", f"{rng.uniform(-9, 9):.3f}e{rng.randint(-20, 12)}", f"{rng.randint(1, 99999)}.{rng.randint(1, 10**9)}"))


def tame(rng):
    """regularised steps over numbers of very different size are no steps at all"""
    return rng.choice((str(rng.randint(-9, 9)), f"{rng.randint(-999, 999)}/{rng.randint(20, 999)}", f"{rng.uniform(-1, 1)!r}", f"{rng.uniform(-9, 9):.3f}e-{rng.randint(1, 20)}"))


def table(rng):
    kind = rng.choice("pstd") + rng.choice("scra")
    ns, nf = rng.randint(1, 2), rng.choice((1, 3, 5))
    syss = []
    for _ in range(ns):
        n = rng.choice((2, 2, 3, 5, 6))
        syss.append([n, rng.choice((0, 0.1, 1 / 3, 2 / 7, 12345.678))] + [x for i in range(n) for x in [f"{rng.randint(1, 99)}/{rng.randint(1, 9)}"] + [wild(rng).lstrip("-") for _ in range(3)]
                    + [f"{rng.randint(-99, 99) + 300 * i}/7"] + [(tame if kind[1] in "ra" else wild)(rng) for _ in range(5)]])
    ops, used = [], set()
    for _ in range(rng.randint(3, 14)):
        f, s = 2 * rng.randrange((nf + 1) // 2), rng.randrange(ns)
        k = rng.choice(("rec", "rec", "rec", "go", "text", "run"))
        if k == "rec":
            ops.append(["rec", f, s, rng.randrange(2)]), used.add(f)
        elif k == "go":
            ops.append(["go", s, rng.choice(("0.1", "0.5", "1e-7", "3"))])
        elif k == "text" and f in used:
            ops.append(["text", f, rng.choice(("note", "#", "7", "a_b", "restart"))])
        elif k == "run":
            a = [rng.choice((-1, f)) for _ in range(3)]
            used |= set(a)
            ops.append(["run", s, rng.randint(0, 5), *a])
    return kind, ns, nf, syss, ops


def energy(rng):
    kind = rng.choice("ps") + rng.choice("scra")
    ns = rng.randint(1, 2)
    nf = 2 * ns + rng.choice((0, 1, 2))
    syss, state, cur = [], [], []
    for _ in range(ns):
        d = rng.choice(intdist.DIRS)
        L = intdist.idist(d, (0, 0, 0))
        while True:
            n = rng.choice((2, 2, 3))
            if L > 3 and n > 2:
                continue
            ks = rng.sample(range(-2, 5), n)
            us = [rng.choice((-1, 0, 0, 1)) for _ in range(n)]
            if all(L * abs(a - b) <= 12 for a in ks for b in ks):
                break
        m = [rng.randint(1, 4) for _ in range(n)]
        o = [rng.randint(-2, 2) for _ in range(3)]
        while 27720 * sum(a * sum((u * x) ** 2 for x in d) for a, u in zip(m, us)) - 2 * sum(m[a] * m[b] * 27720 // (L * abs(ks[a] - ks[b])) for a in range(n) for b in range(a)) == 0:
            m[rng.randrange(n)] += 1
        syss.append([n, rng.choice((0, 0.1, 1 / 3, 2 / 7, 12345.678))] + [x for i in range(n) for x in [m[i], 1, 0, 0] + [o[k] + ks[i] * d[k] for k in range(3)] + [us[i] * x for x in d]])
        state.append([(L, us, m), ks]), cur.append([list(ks), list(ks)])

    def ahead(k, which, h):
        (L, us, m), _ = state[k]
        new = [a + h * u for a, u in zip(cur[k][which], us)]
        D = [L * abs(a - b) for i, a in enumerate(new) for b in new[:i]]
        E = 27720 * sum(a * u * u * L * L for a, u in zip(m, us)) - 2 * sum(m[i] * m[j] * 27720 // max(1, L * abs(new[i] - new[j])) for i in range(len(m)) for j in range(i))
        return new if all(D) and max(D) <= 12 and E else None
    ops = []
    owner = lambda f: (f // 2) % ns
    for _ in range(rng.randint(3, 14)):
        f = 2 * rng.randrange(nf // 2) + 1
        s = owner(f)
        k = rng.choice(("err", "err", "go", "go", "text", "run", "rec"))
        if k == "err":
            ops.append(["err", f, s, rng.randrange(2)])
        elif k == "rec":
            ops.append(["rec", f - 1, s, rng.randrange(2)])
        elif k == "text":
            ops.append(["text", f, rng.choice(("note", "#", "7"))])
        elif k == "go":
            h = rng.choice((1, 1, 2, -1))
            new = ahead(s, 0, h)
            if new:
                cur[s][0] = new
                ops.append(["go", s, h])
        else:
            save, n = cur[s][1], 0
            for _ in range(rng.randint(0, 3)):
                new = ahead(s, 1, 1)
                if not new:
                    break
                cur[s][1], n = new, n + 1
            ops.append(["run", s, n, *[rng.choice((-1, f, f, f - 1)) for _ in range(3)]])
    return kind, ns, nf, syss, ops


def check(c):
    exe = c.build("c22_writers.cpp", flags=["-O1"])
    N = c.pick(500, 6000)
    f, d = os.path.join(c.scratch, "in.txt"), os.path.join(c.scratch, "files")
    os.makedirs(d, exist_ok=True)
    with open(f, "w") as o:
        for k in range(N):
            kind, ns, nf, syss, ops = (table if k % 2 else energy)(c.rng)
            print(kind, ns, nf, len(ops), *[x for s in syss for x in s], *[x for p in ops for x in p], file=o)
    tr = lines("\n".join(x for x in c.run(exe, [f, d], what="writers", timeout=300).splitlines() if x.startswith("{")))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("TablesMC", workers=2))
        c.validate("TablesTrace", tr, par=5)
        fut.result()
    c.extra["records"] = sum(e["e"] != "text" for t in tr for e in t["ev"])
