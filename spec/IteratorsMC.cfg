CONSTANTS Order = 4
 Errs = {0, 4, 9, 30, 60}
 PcErrs = {0, 3, 4, 5, 8, 9, 20}
 Rs = {1, 4, 5, 64}
 Depth = 6
SPECIFICATION Spec
INVARIANTS GoesOn DoneAgrees SweepsImprove SweepsStop
CHECK_DEADLOCK FALSE
