"""Particle containers keep every particle's properties together, through edits, copies, conversion and printing."""
from vlib import *


def program(rng, full, nops):
    n = [0, 0]
    have = [full, full]
    ops = []
    part = lambda: [rng.randint(1, 999)] + [rng.randint(-999, 999) for _ in range(9)]
    kinds = "make push push push resize reserve clear copy assign aos print time set set".split() if full else "make copy assign aos print time set".split()
    while len(ops) < nops:
        op = rng.choice(kinds) if ops else "make"
        x, y = rng.randrange(2), rng.randrange(2)
        i, k, a = 0, 0, []
        if op == "make":
            k = rng.randrange(2)
            n[x], have[x] = rng.choice((0, 1, 2, 3, 5, 6, 9, 17) if full else (2, 3, 5, 6, 9, 17)), True
            a = [rng.randint(-99, 99)] + [v for _ in range(n[x]) for v in part()]
        elif op in ("copy", "assign"):
            if x == y or not have[y] or (op == "assign" and not have[x]):
                continue
            n[x], have[x] = n[y], True
        elif not have[x]:
            continue
        elif op == "push":
            if n[x] > 20:
                continue
            a = part()
            n[x] += 1
        elif op == "resize":
            n[x] = k = rng.randint(0, 8)
        elif op == "reserve":
            k = rng.randint(0, 30)
        elif op == "clear":
            n[x] = 0
        elif op == "time":
            a = [rng.randint(-999, 999)]
        elif op == "set":
            if not n[x]:
                continue
            i, a = rng.randrange(n[x]), part()
        ops.append([op, x, y, i, k, len(a), *a])
    return ops


def check(c):
    exe = c.build("c11_store.cpp", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    f = os.path.join(c.scratch, "store.txt")
    N = c.pick(400, 6000)
    with open(f, "w") as o:
        for k in range(N):
            kind = ("point", "size", "tide", "drag", "simple", "chain", "regu", "archain", "size", "tide", "drag")[k % 11]
            ops = program(c.rng, kind in ("point", "size", "tide", "drag"), c.rng.randint(8, 20))
            print(kind, "dk"[k // 11 % 2], len(ops), *[v for op in ops for v in op], file=o)
    tr = lines(c.run(exe, [f], what="stores", timeout=300))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("ParticleStoreMC", workers=3))
        c.validate("ParticleStoreTrace", tr, par=5)
        fut.result()
