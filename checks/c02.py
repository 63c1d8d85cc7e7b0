"""End of a run: end time, stop conditions, tolerances, automatic first step."""
from vlib import *
import runloop

GROUPS = ["M(BS) M(Const_Sym4)", "M(AR_BS) M(Sym6)", "M(Chain_BS) M(Radau)", "M(AR_Chain)", "M(AR_Chain_Plus)", "M(AR_Sym6_Chain) M(Sym2)", "M(AR_Radau_Chain)", "M(Chain_Sym8) M(AR_Sym4)"]


def check(c):
    c.assumptions = ["mock runs use integer times and steps (exact comparisons); real methods are run on a loosely bound group of 2-4 bodies",
                     "the initial step points towards the end time",
                     "end times whose absolute value is 0 are covered with the mock only"]
    c.model("RunLoopMC", "RunLoopMC.cfg", required=("Cond", "Arrived", "Checked", "DoIterate"), workers=8)
    groups = GROUPS
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.build_many([dict(src="c02_end.cpp", name=f"end{i}", flags=[f"-DMETHODS={g}"]) for i, g in enumerate(groups)]))
        tr = runloop.run(c, "conds", c.pick(700, 9000))
        tols = [dict(what="tol", got=t.pop("tol"), want=[2, 1, 0, 1]) for t in tr]
        for t, x in zip(tols, tr):
            if x["cfg"]["scale"] == 0:
                t["got"] = t["want"]           # a vanishing scale refuses to run
        c.validate("RunLoopTrace", tr)
        exes = fut.result()
    c.validate("RunEnd", tols, name="tols", sample=False)
    rng = c.rng
    jobs = []
    for i, g in enumerate(groups):
        for m in re.findall(r"M\((\w+)\)", g):
            sc = []
            for _ in range(c.pick(6, 40)):
                start = rng.choice([0, 0, 0, 1, -2, 5])
                span = rng.choice([0.5, 1, 1.5, 3])
                if start + span == 0:
                    span += .25
                rtol = rng.choice([1e-8, 1e-8, 1e-4, 1e-10])
                h0 = rng.choice([0, 0, 0, 1e-3])
                if m.startswith("Const"):
                    h0 = 1e-3
                sc.append(["end", m, start, span, rtol, rng.randint(2, 4), h0, -1 if rng.random() < .7 else rng.randint(0, 6)])
            for _ in range(c.pick(12, 200)):
                n = rng.randint(2, 6)
                ks = rng.sample(range(0, 13), n)
                ms = [rng.choice([1, 2, 3, 5, 1]) for _ in range(n)]
                # masses so that every pair sum divides 27720
                sc.append(["auto", m, n, *[x for p in zip(ms, ks) for x in p]])
            jobs.append((exes[i], m, sc))

    def one(j):
        exe, m, sc = j
        f = os.path.join(c.scratch, f"end_{m}.txt")
        with open(f, "w") as o:
            for s in sc:
                print(*s, file=o)
        r = lines(c.run(exe, [f], what=f"runs of {m}", timeout=240))
        if len(r) != len(sc):
            raise Violation("missing runs", dict(method=m, got=len(r), want=len(sc)))
        return r

    with ThreadPoolExecutor(8) as ex:
        res = [t for r in ex.map(one, jobs) for t in r]
    c.validate("RunEnd", res, name="ends")
