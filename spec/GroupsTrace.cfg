CONSTANT SC = 64
SPECIFICATION TSpec
CHECK_DEADLOCK TRUE
