"""Anomalies and times along an orbit belong to one another."""
from vlib import *


def program(rng):
    k = rng.choice((0, 1, 2, 4, 6, 7, 8, 8, 9, 10, 12, 16))
    if k < 8:
        far = rng.random() < .25
        j = rng.randint(-400, 400) if far else rng.randint(-50, 50)
        far = abs(j) > 50
    else:
        far = rng.random() < .25   # out where the body is as good as on its asymptote
        j = rng.choice((-1, 1)) * rng.randint(37, 120 if k > 8 else 400) if far else rng.randint(-36, 36)
    if rng.random() < .15:
        far, j = False, rng.choice((0, 1, -1))
    if k == 8 and rng.random() < .3:
        far, j = False, rng.choice((6, -6))
    ops, kind = [], "E"
    for _ in range(rng.randint(3, 12)):
        x = rng.random()
        if x < .7:
            to = rng.choice([y for y in ("EM" if far else "EMT") if y != kind])
            kind = to
            ops.append(["conv", to])
        elif x < .9:
            forms = ["type"]
            if k == 8 and abs(j) == 6:
                forms = ["para"]
            if not far:
                forms.append("orbit")
                if abs(j) <= 25 and k not in (0, 8):
                    forms += ["pair", "groups"]
            ops.append(["time", rng.choice(forms), rng.choice((1, 2, 3, 7)), rng.choice((1, 2, 0.5, 3))])
        elif x < .95:
            ops.append(["type"])
        else:
            r = rng.choice((0, rng.randint(-99, 99), rng.uniform(-40, 40)))
            ops.append(["root", repr(float(r)), repr(float(r - rng.choice((1, 3, 50, 0.5)))), repr(float(r + rng.choice((1, 3, 50, 0.25)))), rng.randint(0, 4)])
    return [k, j, len(ops)] + [y for o in ops for y in o], [" ".join(o[:2]) if o[0] in ("conv", "time") else o[0] for o in ops]


def check(c):
    exe = c.build("c30_anomaly.cpp", flags=["-O1"])
    N = c.pick(4000, 60000)
    cnt = {}
    f = os.path.join(c.scratch, "in.txt")
    with open(f, "w") as o:
        for _ in range(N):
            p, kinds = program(c.rng)
            for x in kinds:
                cnt[x] = cnt.get(x, 0) + 1
            print(*p, file=o)
    tr = lines(c.run(exe, [f], what="anomalies", timeout=300))
    if len(tr) != N:
        raise Violation("missing programs", dict(got=len(tr), want=N))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: (c.model("AnomalyMC", required=["Halve"], workers=2), c.model("AnomalyMC", cfg="AnomalyMCnarrow", expect=("invariant", "Found"), workers=2)))
        c.validate("AnomalyTrace", tr, par=5)
        fut.result()
    c.extra["operations"] = cnt
