"""Shared files and asynchronous pipes: atomic queues of whole records."""
from vlib import *


def check(c):
    exe = c.build("c16_files.cpp")
    sd = c.rng.randrange(1 << 20)
    D, R = c.pick(500, 20000), c.pick(150, 4000)
    sc = []
    for var in (0, 1, 2, 3):
        sc.append(["write", 2, 2, var, D, R, 2])
        sc.append(["write", 3, 2, var, c.pick(100, 5000), R, 1])
    for var in (0, 1, 2):
        sc += [["read", 2, 3, var, D, R, 2], ["read", 3, 2, var, c.pick(100, 5000), R, 1], ["read", 2, 0, var, 50, 0, 2]]
        for n in (0, 1, 2):
            sc.append(["in", 1, n, var, D, R, 2])
        sc.append(["in", 2, 3, var, D, R, 2])
        sc.append(["in", 2, 205, var, 3, c.pick(3, 40), 0])
        sc.append(["in", 1, 101, var, 3, c.pick(3, 40), 0])
        sc.append(["in", 1, 100, var, 3, c.pick(3, 40), 0])
    for var in (0, 1):
        sc += [["out", 1, 0, var, D, R, 3], ["out", 1, 3, var, D, R, 2], ["out", 2, 2, var, D, R, 2], ["out", 1, 600, var, 3, c.pick(8, 60), 0]]
    sc += [["pipe", 1, n, 0, D, R, 3] for n in (0, 1, 2, 3)]
    sc += [["stop", 1, 3, n, D, R, 2] for n in (0, 1, 2)] + [["stop", 1, 150, n, 3, 20, 0] for n in (0, 1, 120)]
    f = os.path.join(c.scratch, "files.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, sd, file=o)
    out = c.run(exe, [f], what="files and pipes", timeout=c.pick(300, 850))
    tr = lines(out)
    marks = [x for x in out.splitlines() if x.startswith("#")]
    if len(marks) != len(sc) or len(tr) < len(sc):
        raise Violation("missing scenarios", dict(got=len(marks), want=len(sc)))
    c.extra["schedules"] = int(re.search(r"explored=(\d+)", marks[-1]).group(1))
    c.extra["scenarios_explored_completely"] = sum("complete=1" in m for m in marks)
    c.model("WorkQueue", "WorkQueuePipe.cfg", workers=4, required=("PLock", "Put", "Notify", "Check", "Sleep", "Take", "Leave", "SStop", "SWake", "Join"))
    c.model("WorkQueue", "WorkQueueNegFlags.cfg", expect=("invariant", "NothingLost"))
    c.validate("SharedFileTrace", tr)
