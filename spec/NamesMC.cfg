SPECIFICATION Spec
CONSTANTS Prefixes = {"", "a", "a(1)", "b"}
 MaxN = 5
INVARIANTS Distinct
CHECK_DEADLOCK FALSE
