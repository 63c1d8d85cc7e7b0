"""Drift and kick mean the same in every representation."""
from vlib import *
import nbody


def check(c):
    c.assumptions = ["integer masses, positions, velocities and mock forces: every expected number is an integer, compared after removing rounding noise below 1e-6",
                     "the step handed to a regularised system is the physical time times the scale factor that property C23 pins down"]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("NBodyMC", c.pick("NBodyMC.cfg", "NBodyMCt.cfg"), required=("DriftOp", "KickOp", "PreOp", "PostOp", "Arm"), workers=4))
        tr = nbody.traces(c, "steps", c.pick(14, 220))
        c.extra["events_by_kind"] = {k: sum(1 for t in tr for e in t["ev"] if e["e"] == k) for k in "DKPOSCLVA"}
        c.validate("NBodyTrace", tr)
        fut.result()
