CONSTANT Max = 4
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Apart
CHECK_DEADLOCK FALSE
