CONSTANTS MaxOps = 3
 Dts <- DtSet
SPECIFICATION Spec
INVARIANTS RoundTrip Momentum IncIsChange Accumulators
CHECK_DEADLOCK FALSE
