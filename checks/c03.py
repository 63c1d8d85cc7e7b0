"""Time, logarithmic-time and step slices."""
from vlib import *


def conf(rng, kind):
    s = rng.choice([0, 0, 1, 3, -2, 10])
    if kind == "step":
        return (kind, 0, 0, rng.choice([1, 2, 3, 4, 5, 7]), 2), True
    if kind == "time":
        n = rng.choice([1, 2, 3, 4, 5, 8, 10])
        if rng.random() < .7:
            return (kind, s, s + n * rng.choice([1, 1, 2, 3, 5]), n, 2), True
        d = rng.choice([5, 7, 10, 11, 13])
        return (kind, s, s + d, n, 2), d % n == 0
    b, n = rng.choice([(2, 1), (2, 2), (3, 2), (5, 2), (2, 4), (3, 1), (2, 3), (3, 3), (7, 1), (2, 5)])
    return (kind, s, s + b ** n, n, b), n in (1, 2, 4)


def fits(c, exact, x, off):
    kind, s, e, n, b = c
    if exact and not off:
        return True
    if kind == "time" and ((x - s) * n) % max(1, (e - s)) == 0 and x != s:
        return False
    return x != e


def direct(rng):
    kind = rng.choice(["time", "log", "step", "time", "log"])
    mode = rng.choice(["void", "bool"])
    c, exact = conf(rng, kind)
    off = 0 if exact else 0.25
    w = [mode, off, "set", *c]
    x = c[1] - rng.randint(0, 3)
    for _ in range(rng.randint(3, 26)):
        if rng.random() < .06:
            for _ in range(50):
                c2, ex2 = conf(rng, kind)
                if (ex2 and not off) or off:
                    break
            else:
                continue
            if not ex2 and not off:
                continue
            c, exact = c2, ex2
            w += ["set", *c]
            x = c[1] + rng.randint(-2, 2) if rng.random() < .5 else x
        x += rng.choice([0, 1, 1, 1, 2, 3, 6]) if rng.random() < .93 else -rng.randint(1, 4)
        if fits(c, exact, x, off):
            w += ["call", x, rng.choice([0, 1])]
    return w


def check(c):
    c.assumptions = ["slice instants that are not exact in binary64 are never hit exactly by the driver; all others are",
                     "logarithmic slices span more than one time unit (see known findings)"]
    c.model("SlicesMC", "SlicesMCt.cfg" if c.thorough else "SlicesMC.cfg", required=("Setup", "Tick"), workers=8)
    exe = c.build("c03_slices.cpp")
    rng = c.rng
    sc = [direct(rng) for _ in range(c.pick(900, 20000))]
    for kind in ("time", "log", "step"):
        for _ in range(c.pick(25, 250)):
            cf, ex = conf(rng, kind)
            while not ex:
                cf, ex = conf(rng, kind)
            st = cf[1] - rng.randint(0, 2)
            sc.append(["op", *cf, st, rng.randint(4, 40), 0])
            # the wrapped stop condition ends the run at an invocation that the slice does reach
            m = {"step": rng.randint(1, 4), "time": rng.randint(1, min(cf[3], 3) if cf[3] > 1 else 1), "log": rng.randint(1, max(1, cf[3]))}[kind]
            if kind == "log" and cf[4] ** cf[3] > 200 or kind == "time" and cf[2] == cf[1]:
                continue
            if kind == "log" and m > 1:
                m = 1     # several instants may pass in one unit step
            sc.append(["cond", *cf, st, 0, m])
    f = os.path.join(c.scratch, "scripts.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="slice callbacks", timeout=60))
    if len(tr) != len(sc):
        raise Violation("missing results", dict(got=len(tr), want=len(sc)))
    c.validate("SlicesTrace", tr)
    # logarithmic slices over at most one time unit: every call has to return
    for key, s in (("logslice-span-1", ["void", 0, "set", "log", 0, 1, 1, 1, "call", 1, 0]),):
        with open(f, "w") as o:
            print(*s, file=o)
        try:
            c.run(exe, [f], what="a logarithmic slice over one time unit", timeout=5)
        except Violation as v:
            if key not in c.known or "terminate" not in v.what:
                raise
            c.known_hit.add(key)
