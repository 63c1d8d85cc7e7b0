"""SmallVector behaves as a sequence."""
from vlib import *


def program(rng, maxlen, nops):
    st = [[], [], []]
    ops = []
    kinds = """push push pushm emplace pop popval clear resize resizev reserve append appendn appendil appendv assignn assign assignil eqil
               erase eraser insert insert insertm insertm insertn insertn insertr insertr insertil swap stdswap copy move ccopy cmove cn cn0 cr cil set front back eq lt rev print""".split()
    val = lambda: rng.choice((rng.randint(0, 3), rng.randint(0, 99)))
    while len(ops) < nops:
        op = rng.choice(kinds)
        x, y = rng.randrange(3), rng.randrange(3)
        s, t = st[x], st[y]
        n = len(s)
        i = rng.choice((0, n, rng.randint(0, n), rng.randint(0, n)))
        j = rng.randint(i, n)
        k = rng.randint(0, maxlen) if op in ("resize", "resizev", "reserve", "assignn", "cn", "cn0") else rng.randint(0, max(1, maxlen // 3))
        vals = [val()]
        if op in ("appendv", "swap", "stdswap", "move", "cmove") and x == y:
            continue
        if op in ("pop", "popval", "erase", "set", "front", "back"):
            if not n:
                continue
            i = min(i, n - 1)
        if op in ("append", "assign", "insertr", "cr"):
            vals = [val() for _ in range(rng.randint(0, max(2, maxlen // 2)))]
        if op in ("appendil", "assignil", "insertil", "cil", "emplace"):
            vals = [val(), val()]
        if op == "eqil":
            vals = [val(), val(), val()]
        grow = {"push": 1, "pushm": 1, "emplace": 1, "append": len(vals), "appendn": k, "appendil": 2, "appendv": len(t), "insert": 1, "insertm": 1, "insertn": k,
                "insertr": len(vals), "insertil": 2}.get(op, 0)
        if n + grow > maxlen:
            continue
        ops.append([op, x, y, i, j, k, len(vals), *vals])
        if op in ("resize", "resizev", "assignn", "cn", "cn0"):
            n = k
        elif op in ("assign", "assignil", "eqil", "cr", "cil"):
            n = len(vals)
        elif op in ("pop", "popval", "erase"):
            n -= 1
        elif op == "eraser":
            n -= j - i
        elif op in ("copy", "move", "ccopy", "cmove"):
            n = len(t)
        elif op == "clear":
            n = 0
        elif op in ("swap", "stdswap"):
            st[x], st[y] = t, s
            continue
        st[x] = [0] * (n + grow)
        if op in ("move", "cmove"):
            st[y] = []
            ops.append(["clear", y, y, 0, 0, 0, 0])
    return ops


def check(c):
    exe = c.build("c12_smallvec.cpp", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    sc = []
    for k in range(c.pick(700, 12000)):
        t, m = [("i4", 9), ("t3", 8), ("t1", 5), ("d16", 36), ("t3", 14)][k % 5]
        ops = program(c.rng, m, c.rng.randint(15, 40))
        sc.append([t, len(ops), *[o for op in ops for o in op]])
    f = os.path.join(c.scratch, "vec.txt")
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f], what="vectors", timeout=300))
    if len(tr) != len(sc):
        raise Violation("missing programs", dict(got=len(tr), want=len(sc)))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("SeqVectorMC", workers=3))
        c.validate("SeqVectorTrace", tr, par=5)
        fut.result()
