SPECIFICATION Spec
CONSTANTS W = 2 P = 1 K = 2 StopLocked = TRUE Drain = FALSE FlagsFirst = TRUE WaitIsLoop = FALSE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
