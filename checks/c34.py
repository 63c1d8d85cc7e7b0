"""Units, constants and formulas of astrophysics are the right ones."""
from math import gcd
from vlib import *

DIM = dict(L="AU PC km m cm Rs Re Rj", M="Ms kg mp Me Mj Mmoon", T="sec min hr day year month kyr Myr Gyr T_hubble", V="kms cms", A="one deg")


def check(c):
    rng = c.rng
    exe = c.build("c34_units.cpp", flags=["-O1"])
    cmds = [f"ratio {a} {b}" for d in DIM.values() for a in d.split() for b in d.split()]
    cmds += [f"ratio {a} one" for a in "AU Ms year deg".split()]
    cmds += [f"lit {a}" for d in DIM.values() for a in d.split() if a != "one"]
    cmds += [f"const {a}" for a in "pi G C Gsi light_time kB kB_on_mp kms_in_code".split()]
    cmds += [f"const {k}_{p}" for p in "jupiter neptune mercury".split() for k in "a e LoAN AoP i".split()]
    big = c.pick(12, 14)
    for n in range(1, big + 1):
        for d in range(1, big + 1):
            if gcd(n, d) == 1:
                cmds += [f"radius {t} {n} {d}" for t in "BH NS WD".split()]
                if n ** 3 * 695700 < 2e9:
                    cmds.append(f"radius STAR {n} {d}")
    cnt = 0
    while cnt < c.pick(2000, 40000):
        m1, m2, m3 = (rng.randint(1, 12) for _ in range(3))
        t, a2, e5 = rng.randint(1, 6), rng.randint(1, 60), rng.choice((0, 3, 4))
        if (m1 + m2) ** 2 * t ** 3 * a2 ** 3 * 125 < 1.9e9:
            cmds.append(f"elk {rng.randint(0, 1)} {m1} {m2} {m3} {(m1 + m2) * t * t} {a2} {e5}")
            cnt += 1
    f = os.path.join(c.scratch, "in.txt")
    open(f, "w").write("\n".join(cmds) + "\n")
    ev = lines(c.run(exe, [f], what="units and formulas"))
    if len(ev) != len(cmds):
        raise Violation("missing results", dict(got=len(ev), want=len(cmds)))
    c.model("UnitsMC", required=["Convert"])
    head, tail = ev[:-cnt], ev[-cnt:]
    c.validate("UnitsTrace", [dict(ev=[e]) for e in head] + [dict(ev=tail[i:i + 20]) for i in range(0, cnt, 20)], par=2)
