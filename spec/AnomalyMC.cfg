SPECIFICATION Spec
CONSTANTS Bracket = 40
 Range = 39
CHECK_DEADLOCK FALSE
INVARIANT SameEll
INVARIANT SameHyp
INVARIANT Found
PROPERTY Ends
