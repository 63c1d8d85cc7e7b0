SPECIFICATION Spec
CONSTANTS MaxLen = 3
CONSTRAINT Narrow
INVARIANTS Laws
CHECK_DEADLOCK FALSE
