"""Parallel loops: every index exactly once, arguments intact, return after the last call."""
from vlib import *


def check(c):
    exe = c.build("c15_loops.cpp")
    sd = c.rng.randrange(1 << 20)
    sc = []
    for n in range(1, 9):
        for total in c.pick([0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 17, 23, 31, 100], list(range(0, 70)) + [100, 127, 1000]):
            for lv in (0, 1):
                sc.append(["loop", total, n, lv, 1, 2, 0, sd, 1])
    for n in (1, 2, 3, 5):
        for lv in (0, 1):
            for ix in (0, 1):
                sc.append(["each", n, lv, ix, 0, 1, 5, 0, sd, 1])
    for n, total in ((2, 5), (3, 7), (2, 1)):
        for lv in (0, 1):
            sc.append(["loop", total, n, lv, c.pick(400, 20000), c.pick(100, 3000), 2, sd, 1])
    for lv in (0, 1):
        for ix in (0, 1):
            for au in (0, 1):
                sc.append(["each", 2, lv, ix, au, c.pick(400, 20000), c.pick(100, 2000), 3, sd, 1])
        sc.append(["each", 3, lv, 1, 0, c.pick(400, 20000), c.pick(100, 2000), 1, sd, 1])
    f = os.path.join(c.scratch, "loops.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    out = c.run(exe, [f], what="parallel loops", timeout=c.pick(300, 800))
    tr = lines(out)
    marks = [x for x in out.splitlines() if x.startswith("#")]
    if len(marks) != len(sc) or len(tr) < len(sc):
        raise Violation("missing scenarios", dict(got=len(marks), want=len(sc)))
    c.extra["schedules"] = int(re.search(r"explored=(\d+)", marks[-1]).group(1))
    c.model("ParLoopMC", workers=4, required=("Spawn", "Start", "Finish", "Join"))
    c.model("ParLoopMC", "ParLoopMCdrop.cfg", expect="deadlock", workers=2)
    c.validate("ParLoopTrace", tr)
