SPECIFICATION Spec
CONSTANTS P = 6
 R = 25
 Start = 504
 N = 18
 Algo = "neumaier"
INVARIANTS Bound Representable
CHECK_DEADLOCK FALSE
