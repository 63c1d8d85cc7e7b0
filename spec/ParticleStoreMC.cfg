SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Ids Masked CopyIsEqual
CHECK_DEADLOCK FALSE
