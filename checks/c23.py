"""Regularised time: scale factors and accumulators."""
from vlib import *
import intdist, nbody


def check(c):
    c.assumptions = ["positions whose mutual distances are all integers: potential energies are exact rationals",
                     "the accumulators follow integer valued mock forces exactly"]
    exe = c.build("c23_regu.cpp")
    rng = c.rng
    pool = intdist.pool(rng, (2, 3, 4, 5), c.pick(40, 150))
    sc = []
    for _ in range(c.pick(240, 4000)):
        n = rng.choice((2, 3, 3, 4, 4, 5))
        F = rng.randint(1, 3)
        Ps = [rng.choice(pool[n]) for _ in range(F + 1)]
        K = intdist.lcm_of(Ps)
        if K > 9000:
            continue
        m = [rng.randint(1, 4) for _ in range(n)]
        v = lambda: [rng.randint(-2, 2) for _ in range(3)]
        s = [rng.choice("ddk"), rng.choice(nbody.REGU), n, K]
        for i in range(n):
            s += [m[i], *Ps[0][i], *v()]
        s.append(F)
        for P in Ps[1:]:
            for p in P:
                s += [*p, *v()]
            s += [rng.randint(0, 3), rng.randint(0, 3), rng.choice([1, 2, 0.5, -1, 8])]
        sc.append(s)
    f = os.path.join(c.scratch, "regu.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="regularised systems"))
    if len(tr) != len(sc):
        raise Violation("missing systems", dict(got=len(tr), want=len(sc)))
    c.validate("Regularise", tr)
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("NBodyMC", "NBodyMC.cfg", required=("DriftOp", "KickOp"), workers=4))
        c.validate("NBodyTrace", nbody.traces(c, "regu", c.pick(20, 250), systems=["logh", "ttl", "clogh", "cttl"], kahan=(5,), ns=(2, 3, 3, 4)))
        fut.result()
