SPECIFICATION Spec
CONSTANTS MaxM = 3
 MaxV = 2
CHECK_DEADLOCK FALSE
INVARIANT SameEnergy
INVARIANT Pair
