"""Timers add up the time they run."""
from vlib import *


def script(rng):
    unit = rng.choice((1, 1, 1000, 1000000, 1000000000))
    w = [unit, rng.randint(0, 900000), 0]
    n = rng.randint(3, 25)
    left = 1000000000
    ops = []
    for _ in range(n):
        k = rng.choice((0, 0, 1))
        op = rng.choice(("start", "start", "pause", "reset", "copy", "jump")) if rng.random() < .6 else "get"
        ops.append((op, k, rng.randint(-5000, 5000) if op == "jump" else 0))
        if rng.random() < .7:
            x = rng.randint(1, rng.choice((3, 1000, 2000000)))
            x = min(x, left // (2 * n))
            ops.append(("pass", 0, x))
        if rng.random() < .5:
            ops.append(("get", k, 0))
    w[2] = len(ops)
    for o in ops:
        w += o
    return w


def check(c):
    c.assumptions = ["the clock is replaced: time passes only between operations, the time of day also jumps"]
    exe = c.build("c21_timer.cpp")
    f = os.path.join(c.scratch, "t.txt")
    N = c.pick(3000, 60000)
    with open(f, "w") as o:
        for _ in range(N):
            print(*script(c.rng), file=o)
    tr = lines(c.run(exe, [f], what="timers", timeout=300))
    if len(tr) != N:
        raise Violation("missing histories", dict(got=len(tr), want=N))
    c.model("TimerMC", workers=4)
    c.validate("TimerTrace", tr)
