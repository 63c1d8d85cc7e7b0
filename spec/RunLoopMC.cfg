CONSTANT MaxT = 3
SPECIFICATION Spec
INVARIANTS TypeOK RoundsPerStep NeverPastEnd StepFits RanToEnd
VIEW View
