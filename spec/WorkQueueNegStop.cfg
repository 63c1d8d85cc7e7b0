SPECIFICATION Spec
CONSTANTS W = 2 P = 1 K = 1 StopLocked = FALSE Drain = FALSE FlagsFirst = TRUE WaitIsLoop = TRUE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
