SPECIFICATION Spec
CONSTANTS W = 1 P = 2 K = 2 StopLocked = TRUE Drain = TRUE FlagsFirst = TRUE WaitIsLoop = TRUE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
