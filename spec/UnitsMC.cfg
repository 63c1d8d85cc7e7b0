SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS Consistent Inverse Laws Stars Outer
CHECK_DEADLOCK FALSE
