SPECIFICATION Spec
CONSTANTS W = 2 P = 2 K = 2 StopLocked = TRUE Drain = FALSE FlagsFirst = TRUE WaitIsLoop = TRUE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
