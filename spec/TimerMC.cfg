SPECIFICATION Spec
CONSTANTS MaxNow = 7
 MaxOps = 6
INVARIANTS ShowsWhatRan NotMore
CHECK_DEADLOCK FALSE
