CONSTANT U = 4
SPECIFICATION TSpec
INVARIANTS StepCount AtMostNum KeepsCount
