SPECIFICATION Spec
CONSTANTS W = 4
 R = 1
 End = 4
INVARIANTS NeverPast Symmetric Moved
PROPERTY Ends
CHECK_DEADLOCK FALSE
