CONSTANTS N = 4
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS Lossless Canonical FollowsTruth
CHECK_DEADLOCK FALSE
