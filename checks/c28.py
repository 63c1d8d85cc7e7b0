"""The vector and array arithmetic everything is written in."""
from vlib import *

VEC = """add sub mul div adds subs muls divs sadd ssub smul sdiv neg abs iadd isub imul idiv iadds isubs imuls idivs fill ctors cross dot norm2 mnorm2 maxc
         vmax vmin conv addf subf csv read""".split()
REAL = "norm mnorm renorm mrenorm dist vabs".split()
ARR = "zero zeros add2 add3 mul2 mul3 sub div scale divscale scaleadd scaleadd2 scalesub adv1 adv2 adv3 ret1 ret2 ret3".split()


def nz(rng, m):
    return rng.choice((-1, 1)) * rng.randint(1, m)


def vec(rng, ty):
    ops = VEC + (REAL if ty != "i" else []) + (["maxabs"] if ty == "d" else [])
    out = []
    for op in rng.sample(ops, len(ops)):
        d, a, b = (rng.randint(1, 3) for _ in range(3))
        m = 20 if op in ("norm", "mnorm", "renorm", "mrenorm", "dist") else 99
        A, B, s = [rng.choice((0, rng.randint(-m, m))) for _ in range(3)], [rng.randint(-m, m) for _ in range(3)], nz(rng, 9)
        if op == "dist":
            A, B = [x // 2 for x in A], [x // 2 for x in B]
        if op in ("div", "idiv"):
            B = [nz(rng, 12) for _ in range(3)]
            A = [x * rng.randint(-9, 9) for x in B] if a != b else [nz(rng, 12) for _ in range(3)]
        elif op in ("divs", "idivs"):
            A = [s * rng.randint(-20, 20) for _ in range(3)]
        elif op == "sdiv":
            A = [nz(rng, 4) for _ in range(3)]
            s = A[0] * A[1] * A[2]
        elif op in ("renorm", "mrenorm"):
            A = [rng.randint(-20, 20), nz(rng, 20), rng.randint(-20, 20)]
        out += [op, d, a, b, *A, *B, s]
    return ["V", ty, len(ops), *out]


def arr(rng, ty):
    ops = ARR + (["dot2", "dot3", "sum"] if ty[0] == "s" else ["cdot", "contract2", "contract3"])
    out = []
    for op in rng.sample(ops, len(ops)):
        n = rng.choice((0, 1, 2, 5, 6, 16, 17)) * (3 if ty[0] == "v" else 1)
        d, a, b = (rng.randint(1, 3) for _ in range(3))
        if op in ("sub", "div", "scale", "divscale", "add2", "mul2", "scaleadd", "scaleadd2", "scalesub", "adv1", "adv2", "adv3", "ret1", "ret2", "ret3", "mul3") and rng.random() < .5:
            d = next(k for k in (1, 2, 3) if k != a and k != b)
        s, t = nz(rng, 9), nz(rng, 9)
        r = {k: [rng.randint(-40, 40) for _ in range(n)] for k in (1, 2, 3)}
        if op == "div":
            r[b] = [nz(rng, 6) for _ in range(n)]
            if a != b:
                r[a] = [x * rng.randint(-9, 9) for x in r[b]]
        elif op == "divscale":
            r[a] = [s * rng.randint(-20, 20) for _ in range(n)]
        out += [op, d, a, b, n, s, t, *r[1], *r[2], *r[3]]
    return ["A", ty, len(ops), *out]


def check(c):
    exe = c.build("c28_algebra.cpp", flags=["-O2"])
    f = os.path.join(c.scratch, "alg.txt")
    sc = []
    for k in range(c.pick(40, 800)):
        sc += [vec(c.rng, t) for t in "ifdl"]
        sc += [arr(c.rng, t) for t in ("sd", "sv", "si", "vd", "vv", "vi")]
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="algebra", timeout=300))
    if len(tr) != len(sc):
        raise Violation("missing programs", dict(got=len(tr), want=len(sc)))
    for t in tr:
        for e in t["ev"]:
            if t["k"] == "V":
                try:
                    e["row"] = [int(float(x)) for x in e["txt"].split(",")] if e["op"] == "csv" else []
                except ValueError:
                    e["row"] = [e["txt"]]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("AlgebraMC", workers=3))
        c.validate("AlgebraTrace", tr, par=5)
        fut.result()
