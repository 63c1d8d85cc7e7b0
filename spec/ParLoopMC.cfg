SPECIFICATION Spec
CONSTANTS MaxTotal = 9 MaxN = 4 Dropping = FALSE
INVARIANT Returned
CHECK_DEADLOCK TRUE
