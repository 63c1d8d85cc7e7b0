SPECIFICATION Spec
CONSTANT Width = 6
INVARIANTS Holds Laws Texts
PROPERTIES Closes Kept
CHECK_DEADLOCK FALSE
