SPECIFICATION TSpec
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
