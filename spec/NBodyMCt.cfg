CONSTANTS MaxOps = 4
 Dts <- DtSet
SPECIFICATION Spec
INVARIANTS RoundTrip Momentum IncIsChange Accumulators
CHECK_DEADLOCK FALSE
