SPECIFICATION TSpec
INVARIANTS TypeOK RoundsPerStep NeverPastEnd StepFits
