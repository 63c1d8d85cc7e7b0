SPECIFICATION Spec
CONSTANTS MaxTotal = 9 MaxN = 4 Dropping = TRUE
INVARIANT Returned
CHECK_DEADLOCK TRUE
