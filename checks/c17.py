"""The thread pool and the concurrent deque."""
from vlib import *


def check(c):
    exe = c.build("c17_pool.cpp", flags=["-DDEQUE"])
    sd = c.rng.randrange(1 << 20)
    D, R = c.pick(1500, 40000), c.pick(400, 10000)
    sc = []
    for kind in (0, 1, 2):
        sc += [["pool", 1, 2, 1, kind, D, R, 2], ["pool", 1, 3, 0, kind, D, R, 2], ["pool", 2, 1, 1, kind, D, R, 2], ["pool", 2, 2, kind % 2, kind, D // 3, R, 1],
               ["pool", 3, 1, 0, kind, D // 3, R, 1]]
    sc += [["pool", 1, 0, 0, 0, D, R, 3], ["pool", 1, 1, 0, 0, D, R, 3], ["full", 5, 0, 0, 0, 1, 0, 0], ["full", 0, 0, 0, 0, 1, 0, 0]]
    for k in range(10):
        sc.append(["deque", k, 0, 0, 0, D, R, 2])
    parts = [sc[i::7] for i in range(7)]

    def one(i):
        f = os.path.join(c.scratch, f"pool{i}.txt")
        with open(f, "w") as o:
            for s in parts[i]:
                print(*s, sd, file=o)
        out = c.run(exe, [f], what="pool and deque", timeout=c.pick(300, 850))
        marks = [x for x in out.splitlines() if x.startswith("#")]
        if len(marks) != len(parts[i]):
            raise Violation("missing scenarios", dict(got=len(marks), want=len(parts[i])))
        return lines(out), int(re.search(r"explored=(\d+)", marks[-1]).group(1)), sum("complete=1" in m for m in marks)
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(one, range(7)))
    c.model("WorkQueue", "WorkQueuePool.cfg", workers=4, required=("PLock", "Put", "Notify", "Check", "Sleep", "Take", "Leave", "SStop", "SWake", "Join"))
    if c.thorough:
        c.model("WorkQueue", "WorkQueuePoolT.cfg", workers=6, timeout=600)
    c.model("WorkQueue", "WorkQueueNegStop.cfg", expect="deadlock")
    c.model("WorkQueue", "WorkQueueNegIf.cfg", expect="error")
    tr = [t for r in res for t in r[0]]
    c.extra["schedules"] = sum(r[1] for r in res)
    c.extra["scenarios_explored_completely"] = sum(r[2] for r in res)
    c.validate("PoolTrace", [t for t in tr if t["kind"] != "deque"])
    c.validate("DequeLin", [t for t in tr if t["kind"] == "deque"], accept="post", name="deque")
