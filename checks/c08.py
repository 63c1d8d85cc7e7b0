"""The flat state array and the collected increments."""
from vlib import *
import nbody


def check(c):
    c.assumptions = ["integer masses, positions, velocities and mock forces (exact); up to 7 bodies, which exceeds the inline capacity of the containers",
                     "state arrays of chain systems are in the chain order current at that moment"]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("NBodyMC", c.pick("NBodyMC.cfg", "NBodyMCt.cfg"), required=("DriftOp", "KickOp", "PreOp", "PostOp", "Arm"), workers=4))
        tr = nbody.traces(c, "state", c.pick(14, 220))
        c.validate("NBodyTrace", tr)
        c.validate("StateShape", [dict(regu=t["sys"]["regu"], n=len(t["sys"]["m"]), dep=bool(set(t["sys"]["forces"]) & {"drag", "shear"}),
                                       lens=sorted({e[k]["len"] for e in t["ev"] for k in ("img", "inc", "s", "y") if k in e})) for t in tr], sample=False)
        fut.result()
