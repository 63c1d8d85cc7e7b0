SPECIFICATION Spec
CONSTANTS Bracket = 20
 Range = 39
CHECK_DEADLOCK FALSE
INVARIANT Found
