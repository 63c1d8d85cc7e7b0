CONSTANT MaxT = 2
SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTY Terminates
