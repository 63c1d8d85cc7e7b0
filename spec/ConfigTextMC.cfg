SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Agrees Trailing Overrides
CHECK_DEADLOCK FALSE
