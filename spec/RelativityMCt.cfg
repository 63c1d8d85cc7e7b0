SPECIFICATION Spec
CONSTANTS
 Vs <- VT
 Ms = {1, 2}
 Ds <- DD
INVARIANTS EqualMass Test Momentum
PROPERTY Equivariant
CONSTRAINT Shallow
