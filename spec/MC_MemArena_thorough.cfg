CONSTANTS MaxBlocks = 3 BlockSize = 2 MaxAlloc = 4
SPECIFICATION Spec
INVARIANTS MAInv
PROPERTIES FrozenStable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
