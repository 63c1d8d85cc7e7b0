CONSTANT U = 1
CONSTANT MaxCalls = 7
SPECIFICATION Spec
INVARIANTS StepCount AtMostNum KeepsCount
