SPECIFICATION Spec
CONSTANTS W = 1 P = 1 K = 1 StopLocked = TRUE Drain = TRUE FlagsFirst = FALSE WaitIsLoop = TRUE
INVARIANTS Once ProducerOrder Exclusive Accounted NothingLost
PROPERTY Ends
CHECK_DEADLOCK TRUE
