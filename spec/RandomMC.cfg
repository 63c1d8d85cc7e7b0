SPECIFICATION Spec
CONSTANTS V = 4
 L = 4
CHECK_DEADLOCK FALSE
INVARIANT InLimits
INVARIANT InOrder
