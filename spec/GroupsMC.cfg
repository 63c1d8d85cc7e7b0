CONSTANTS
  SC = 1
  W = 2
SPECIFICATION Spec
INVARIANTS Koenig KoenigL Arrived
PROPERTIES Rigid Others
CHECK_DEADLOCK FALSE
