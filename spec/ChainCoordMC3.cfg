CONSTANTS N = 3
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS Lossless Canonical FollowsTruth
CHECK_DEADLOCK FALSE
