"""Order and symmetry of the symplectic integrators."""
from vlib import *


def check(c):
    exe = c.build("c14_symplectic.cpp")
    sizes = [1.0, -1.0, 0.125, -64.0] + [c.rng.uniform(-1, 1) * 10 ** c.rng.randint(-6, 6) for _ in range(c.pick(4, 100))]
    tr = lines(c.run(exe, [repr(h) for h in sizes], what="integrators"))
    if len(tr) != 2 * 7 * 2 * len(sizes):
        raise Violation("missing runs", dict(got=len(tr)))
    c.model("SymplecticMC", workers=4)
    full, same = {}, []
    for t in tr:
        k = t.pop("name")
        if k in full:
            t["same"] = True
            ref = full[k]["ev"]
            if len(ref) != len(t["ev"]) or t["order"] != full[k]["order"]:
                raise Violation("a method performs different steps for different step sizes or number types", dict(method=k))
            for e, r in zip(t["ev"], ref):
                e["rop"], e["r"] = r["op"], r["c"]
            same.append(t)
        else:
            t["same"] = False
            full[k] = t
    with ThreadPoolExecutor(2) as ex:
        f = [ex.submit(c.validate, "SymplecticTrace", list(full.values()), par=1, workers=7, name="full"),
             ex.submit(c.validate, "SymplecticTrace", same, par=1, name="same")]
        for x in f:
            x.result()
