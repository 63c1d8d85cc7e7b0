"""Run lifecycle: order and number of callbacks around every step."""
from vlib import *
import runloop


def check(c):
    c.assumptions = ["times and steps are integers, so every comparison made by the loop is exact",
                     "the initial step points towards the end time; every accepted step makes progress",
                     "once one stop condition is true the remaining ones may or may not be asked"]
    c.model("RunLoopMC", "RunLoopMC.cfg", required=("StartOp", "Op", "Pre", "Post", "StopOp"), workers=8)
    c.model("RunLoopMC", "RunLoopMClive.cfg", workers=8)
    tr = runloop.run(c, "ops", c.pick(900, 12000))
    for t in tr:
        t.pop("tol")
    c.validate("RunLoopTrace", tr)
