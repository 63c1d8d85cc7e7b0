SPECIFICATION Spec
CONSTANT A = 1
CONSTANT Flip = FALSE
CHECK_DEADLOCK FALSE
INVARIANT Length
INVARIANT Momentum
INVARIANT Energy
INVARIANT Radial
INVARIANT Periapsis
INVARIANT Described
PROPERTY Kept
