"""Scripts for Simulator::run shared by C01 and C02."""
from vlib import *


def script(rng, what):
    start = rng.choice([0, 0, 0, 3, -4, 7])
    fwd = rng.random() < .75
    end = start + (1 if fwd else -1) * rng.choice([0, 1, 2, 5, 9, 16, 30])
    endset = 1
    ncond = rng.choice([0, 0, 1, 2, 3]) if what != "conds" else rng.choice([1, 2, 3])
    fire = [rng.choice([-1, 0, 1, 2, 4, 7]) for _ in range(ncond)]
    if ncond and any(f >= 0 for f in fire) and rng.random() < .3:
        endset = 0
    if not endset:
        fwd = True
    scale = rng.choice([1, 1, 1, 2, 3]) if rng.random() < .97 else 0
    sg = 1 if fwd else -1
    h0 = sg * rng.choice([1, 1, 2, 3, 5, 8, 50]) * max(1, scale)
    rn, rd = rng.choice([(0, 1), (3, 2039), (100, 2039), (501, 2039), (1, 2039), (1, 100003)])
    n = rng.randint(0, 14)
    ent = []
    for _ in range(n):
        ent += [rng.choice([1, 1, 1, 2, 3, 4]), rng.choice([1, 2, 3, 4, 6, 9, 40, 9000 if endset else 20])]
    nstart, nop, nstop = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 3])
    return [start, end, endset, h0, scale, rn, rd, nstart, nop, nstop, ncond, *fire, n, *ent, int(fwd and rng.random() < .3)]


def systematic():
    """all small runs: every start/end/step/shape combination"""
    res = []
    for start in (-2, 0, 1):
        for end in range(-3, 4):
            if end == start:
                sgs = (1,)
            else:
                sgs = (1 if end > start else -1,)
            for sg in sgs:
                for h in (1, 2, 3):
                    for scale in (1, 2):
                        for (a, b, c) in ((0, 1, 0), (1, 2, 1), (2, 1, 2)):
                            res.append([start, end, 1, sg * h * scale, scale, 0, 1, a, b, c, 0, 3, 1, 1, 2, 2, 1, 3])
    # wide tolerances, approached from either side
    for end in (2, 3, 4, 5, -3, -4):
        for sg in (1, -1):
            for rn, rd in ((501, 2039), (401, 2039), (1000, 2039)):
                res.append([end - 7 * sg, end, 1, sg, 1, rn, rd, 1, 1, 1, 0, 0])
    return res


def run(c, what, num):
    exe = c.build("c01_run.cpp")
    sc = systematic() + [script(c.rng, what) for _ in range(num)]
    f = os.path.join(c.scratch, "scripts.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="Simulator::run"))
    if len(tr) != len(sc):
        raise Violation("missing runs", dict(got=len(tr), want=len(sc)))
    for t in tr:
        if t.pop("long"):
            raise Violation("a run with positive progress per step does not end", dict(trace=t))
    return tr
