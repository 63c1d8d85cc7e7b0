"""Compensated numbers keep the small terms that plain summation loses."""
from vlib import *


def program(rng, ty, nops):
    ops = []
    if ty[1] == "f":
        total = rng.choice((-1, 1)) * (rng.randint(1 << 17, (1 << 18) - (1 << 14)) << 12)
        ops.append((rng.choice(("set", "assign")), total))
        drip = rng.random() < .6
        bias = rng.choice((-1, 1))
        for _ in range(nops):
            x = bias * rng.randint(1, 60) if drip else rng.choice((-1, 1)) * rng.randint(0, 1 << rng.randint(1, 16))
            op = rng.choice("add addk sub subk add add adv vec copy swap neg".split())
            if op == "neg":
                if rng.random() < .6:
                    continue
                bias, x = -bias, 0
            ops.append((op, {"adv": x // 2, "sub": -x, "subk": -x, "copy": 0}.get(op, x)))
        return ops
    ops.append((rng.choice(("set", "assign")), rng.randint(-9, 9) * 64))
    bias = rng.choice((-1, 1))
    for _ in range(nops):
        x = bias * rng.randint(1, 25)
        op = rng.choice("add addk sub subk add add adv vec copy swap neg".split())
        if op in ("sub", "subk"):
            x = -x
        if op == "neg":
            if rng.random() < .6:
                continue
            bias, x = -bias, 0
        ops.append((op, 0 if op == "copy" else x))
    return ops


def scaled(rng, ty):
    """grow, rescale by a power of two, keep adding: everything is a multiple of 64 before it is divided"""
    ops = [("set", (1 << 29) + 64 * rng.randint(0, 999) if ty[1] == "f" else 0)]
    for _ in range(rng.randint(1, 12)):
        ops.append((rng.choice(("add", "sub", "addk", "subk")), 64 * rng.randint(-3, 3) + (0 if ty[1] == "f" else 0)))
    k = rng.choice((2, 8, 64)) * rng.choice((-1, 1))
    ops.append(("divi", k))
    for _ in range(rng.randint(1, 60)):
        ops.append((rng.choice(("add", "addk", "vec")), rng.randint(0, 9)))
    if rng.random() < .5:
        ops.append(("muli", k))
        ops.append(("add", rng.randint(-9, 9)))
    return ops


def cycles(rng, ty):
    """up and down again by powers of two of either sign, between small terms: what is still to be added is scaled along"""
    base = 0 if ty[1] != "f" else 1 << rng.choice((25, 26))
    ops = [("set", base)]
    for _ in range(rng.randint(5, 60)):
        k = rng.choice((2, 4)) * rng.choice((-1, 1))
        for _ in range(rng.randint(1, 3)):
            ops.append((rng.choice(("add", "addk", "vec")), rng.randint(0, 9)) if rng.random() < .8 else ("sub", -rng.randint(0, 9)))
        ops.append(("muli", k))
        if rng.random() < .5:
            ops.append(("add", k * rng.randint(-3, 3)))
        ops.append(("divi", k))
    return ops


def reread(rng, ty):
    """terms of all sizes, then another number is read in"""
    f = ty[1] == "f"
    ops = [("set", (1 << 28) if f else 0)]
    for _ in range(rng.randint(2, 12)):
        ops.append((rng.choice(("add", "sub", "addk", "subk")), rng.randint(1, 9 if f else 25)))
    if f:
        for _ in range(rng.randint(0, 2)):
            ops.append((rng.choice(("add", "sub", "addk", "subk")), rng.randint(1 << 22, 1 << 23) * 32))
    for op in ("read", rng.choice(("set", "assign"))):
        ops.append((op, rng.randint(-9, 9) * (1 if f else 64)))
        for _ in range(rng.randint(1, 9)):
            ops.append((rng.choice(("add", "sub", "vec", "copy", "neg")), rng.randint(0, 3)))
            if ops[-1][0] in ("copy", "neg"):
                ops[-1] = (ops[-1][0], 0)
    return ops


def deep(rng):
    """what is lost when terms are added to the compensation counts as well"""
    ops, sg = [("set", 1 << 28)], 1
    for _ in range(rng.randint(40, 120)):
        B, d = 32 * rng.randint(1 << 23, (1 << 24) - 1), rng.randint(4, 7)
        ops.append(("add", sg * d) if rng.random() < .5 else ("sub", -sg * d))
        ops += [("add", -sg * B), ("add", sg * B)] if rng.random() < .5 else [("sub", sg * B), ("sub", -sg * B)]
        if rng.random() < .6:
            sg = -sg
            ops[-1:] = [("neg", 0), ("add", sg * B)]
    return ops


TYPES = ("kf", "kd", "kl", "nf", "nd", "nl", "ef", "ed", "el")


def check(c):
    exe = c.build("c13_kahan.cpp", flags=["-O2"])
    f = os.path.join(c.scratch, "kahan.txt")
    N = c.pick(60, 1500)
    with open(f, "w") as o:
        for k in range(N):
            for ty in TYPES:
                ops = deep(c.rng) if ty == "ef" and k % 8 == 3 else scaled(c.rng, ty) if k % 8 == 0 else cycles(c.rng, ty) if k % 8 == 4 else reread(c.rng, ty) if k % 4 == 1 else program(c.rng, ty, c.rng.choice((10, 40, 150, 400)))
                print(ty, len(ops), *[v for op in ops for v in op], file=o)
    tr = lines(c.run(exe, [f], what="sums", timeout=300))
    if len(tr) != len(TYPES) * N:
        raise Violation("missing sums", dict(got=len(tr), want=len(TYPES) * N))
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(lambda a=a: c.model("CompensatedMC", cfg=f"CompensatedMC{a}.cfg", workers=1, **({"expect": ("invariant", "Bound")} if a == "plain" else {}))) for a in ("kahan", "neumaier", "klein", "plain")]
        c.validate("CompensatedTrace", tr, par=4)
        for x in fs:
            x.result()
