SPECIFICATION TSpec
CONSTANT A = 5
CHECK_DEADLOCK TRUE
