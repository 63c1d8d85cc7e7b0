"""Printing, reading and numeric helpers do what they say."""
from vlib import *

WORDS = "a b7 xyz hello Q_1 - , . x,y".split()


def val(rng, t=None, read=False):
    t = t or rng.choice("iqs")
    if t == "i":
        return ["i", rng.choice((0, 1, -1, rng.randint(-999999, 999999)))]
    if t == "q":
        return ["q", rng.randint(-3999, 3999)]
    return ["s", rng.choice(WORDS[:5] if read else WORDS)]


def vals(rng, n, same=False, read=False):
    t = rng.choice("iqs") if same else None
    v = [val(rng, t, read) for _ in range(n)]
    return [n] + [y for x in v for y in x]


def bisect(rng):
    kind = rng.choice(("lin", "cube", "jump", "right", "left"))
    a = rng.randint(-60, 60)
    b = rng.choice((0, rng.randint(-60, 60), -a))
    if a == b:
        b += 1
    lo, hi = min(a, b), max(a, b)
    e = kind in ("right", "left")
    if e and hi - lo < 2:
        hi = b = lo + 5
        a = lo
    r = rng.randint(lo + e, hi - e)
    if lo + e <= 0 <= hi - e and rng.random() < .3:
        r = 0
    if rng.random() < .15 and not e:
        r = rng.choice((a, b))
    return ["bisect", rng.choice("fdl"), kind, a, b, r, rng.choice((1, -1, 3, -5))]


def command(rng):
    op = rng.choice("print csv display std tuple array vector small read sread tie emplace push resize reserve clear fit num num num num".split())
    if op in ("print", "display", "std"):
        return [op] + vals(rng, rng.randint(0, 4))
    if op in ("csv", "tuple"):
        return [op] + vals(rng, rng.randint(1, 4))
    if op in ("array", "vector", "small"):
        return [op] + vals(rng, rng.randint(0, 4), True)
    if op in ("read", "sread", "tie"):
        n = rng.randint(1, 4)
        return [op] + vals(rng, n, read=True) + ["".join(rng.choice("_nt") for _ in range(rng.randint(1, 3))), rng.choice((0, 0, 0, rng.randint(0, n)))]
    if op in ("emplace", "push"):
        m = rng.randint(1, 3)
        return [op, rng.randint(0, 2), m] + [rng.randint(-9, 9) for _ in range(m)]
    if op in ("resize", "reserve", "clear", "fit"):
        return [op, rng.randint(1, 7), rng.randint(0, 8)]
    op = rng.choice("min max abs range range step sign iseq limits bisect bisect bisect newton".split())
    t = rng.choice("fdl")
    x = lambda: rng.choice((0, rng.randint(-3, 3), rng.randint(-800, 800)))
    if op in ("min", "max"):
        return [op, t, x(), x()]
    if op in ("abs", "step", "sign"):
        return [op, t, x()]
    if op == "range":
        a, b = sorted((x(), x()))
        return [op, t, a, rng.choice((a, b, x())), b]
    if op == "iseq":
        return [op, t, rng.randint(0, 1), rng.randint(-12, 12)]
    if op == "limits":
        return [op, t]
    if op == "newton":
        return [op, t, rng.randint(-64, 64), rng.randint(1, 7)]
    return bisect(rng)


def check(c):
    rng = c.rng
    exe = c.build("c33_helpers.cpp", flags=["-O1"])
    N = c.pick(1500, 40000)
    files = []
    for k in range(4):
        files.append(os.path.join(c.scratch, f"in{k}.txt"))
        with open(files[-1], "w") as o:
            for _ in range(N):
                cmds = [command(rng) for _ in range(rng.randint(1, 12))]
                print(len(cmds), *[y for x in cmds for y in x], file=o)
    with ThreadPoolExecutor(6) as ex:
        fut = ex.submit(lambda: c.model("HelpersMC", required=["Halve", "Edit"], workers=2))
        tr = [t for r in ex.map(lambda f: lines(c.run(exe, [f], what="helpers", timeout=300)), files) for t in r]
        fut.result()
    if len(tr) != 4 * N:
        raise Violation("missing programs", dict(got=len(tr), want=4 * N))
    c.validate("HelpersTrace", tr)
