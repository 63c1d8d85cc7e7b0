"""The adaptive Bulirsch-Stoer step: what is accepted, rejected and tried next."""
from fractions import Fraction
from vlib import *

N = [1, 2, 3, 5, 8, 12, 17, 25]


def attempt(rng, calm, last):
    """Seven levels of (error, 1024 is the tolerance, ideal step ratio)."""
    p = rng.random()
    lv = []
    good = rng.randint(1, 3) if last else rng.randint(1, 7) if not calm else rng.randint(1, 5)
    for k in range(1, 8):
        if last and k >= good or (k >= good and rng.random() < .5):
            e = rng.choice([0, 1, 256, 1023, 1024, 1024])
        else:
            j = min(7, k + 1)
            one = 1024 * N[j] ** 2
            two = one * N[min(7, k + 2)] ** 2
            e = rng.choice([1025, 1060, 2048, 8000, 100000, one, one + 1, one + one // 20, two, two + 1, two + two // 20, 512000000])
            if p < .3 or last:
                e = rng.choice([1025, 1040, 1100, 2048, 5000])
        a, b = rng.choice([(1, 8), (1, 4), (1, 2), (3, 4), (7, 8), (1, 1), (9, 8), (5, 4), (3, 2), (2, 1), (3, 1), (5, 1), (8, 1)])
        if rng.random() < .5:      # the usual course: higher levels allow longer steps
            a, b = rng.choice([(k, 4), (k + 2, 4), (k + 1, 2), (2 * k, 3 if k % 3 else 4)])
            if b == 3:
                b = 4
        lv.append((e, a, b))
    return lv


def script(rng, mode):
    w = [mode]
    steps = rng.randint(1, 9)
    w.append(steps)
    sgn = rng.choice([1, 1, 1, -1])
    for i in range(steps):
        w.append(sgn * 20400 * 16 // rng.choice([1, 1, 2, 4]))
        nt = rng.choice([2, 2, 3, 3, 4, 5])
        w.append(nt)
        for t in range(nt):
            for l in attempt(rng, rng.random() < .5, t == nt - 1):
                w += l
    return w


def check(c):
    c.assumptions = ["errors, ideal step ratios and limits come from scripted collaborators (powers of two and small fractions), so every decision is exact",
                     "the last scripted attempt converges at some level inside the window or the step ratio shrinks until it does",
                     "work estimates that tie at the 0.8 and 0.9 factors are compared in floating point and are not scripted"]
    exes = c.build_many([dict(src="c06_bs.cpp", name="bs_dkd", flags=["-D_GLIBCXX_ASSERTIONS"]), dict(src="c06_bs.cpp", name="bs_kdk", flags=["-DKDK", "-D_GLIBCXX_ASSERTIONS"])])
    rng = c.rng
    with ThreadPoolExecutor(1) as ex:
        def models():
            c.model("BSControlMC", "BSControlMC.cfg", required=("Try",), workers=4)
            if c.thorough:
                c.model("BSControlMC", "BSControlMCt.cfg", workers=4, timeout=3000)
        fut = ex.submit(models)
        for exe, cfg in zip(exes, ("BSControlTrace.cfg", "BSControlTraceK.cfg")):
            sc = [script(rng, "sys") for _ in range(c.pick(300, 5000))] + ([script(rng, "ode") for _ in range(c.pick(150, 2000))] if "dkd" in exe else [])
            f = os.path.join(c.scratch, "bs.txt")
            with open(f, "w") as o:
                for s in sc:
                    print(*s, file=o)
            tr = lines(c.run(exe, [f], what="Bulirsch-Stoer iterator"))
            if len(tr) != len(sc):
                raise Violation("missing runs", dict(got=len(tr), want=len(sc)))
            c.validate("BSControlTrace", tr, cfg=cfg, name=cfg)
        fut.result()
