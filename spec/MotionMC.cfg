SPECIFICATION Spec
INVARIANTS IsRadius Energy Spin Apsis Tables Central
PROPERTIES Grows Chord Hermite
CHECK_DEADLOCK FALSE
