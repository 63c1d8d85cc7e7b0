SPECIFICATION Spec
CONSTANTS
 Vs <- VV
 Ms = {1, 2}
 Ds <- DD
INVARIANTS EqualMass Test Momentum
PROPERTY Equivariant
CONSTRAINT Shallow
