CONSTANT U = 1
CONSTANT MaxCalls = 9
SPECIFICATION Spec
INVARIANTS StepCount AtMostNum KeepsCount
