SPECIFICATION Spec
INVARIANTS Sums Products Quotients Leapfrog
CHECK_DEADLOCK FALSE
