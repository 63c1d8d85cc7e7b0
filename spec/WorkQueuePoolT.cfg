SPECIFICATION Spec
CONSTANTS W = 3 P = 2 K = 3 StopLocked = TRUE Drain = FALSE FlagsFirst = TRUE WaitIsLoop = TRUE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
