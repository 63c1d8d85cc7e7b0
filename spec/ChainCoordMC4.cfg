CONSTANTS N = 4
 MaxOps = 2
SPECIFICATION Spec
INVARIANTS Lossless Canonical FollowsTruth
CHECK_DEADLOCK FALSE
