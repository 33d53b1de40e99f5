CONSTANTS MaxBlocks = 2 BlockSize = 2 MaxAlloc = 3
SPECIFICATION Spec
INVARIANTS MAInv
PROPERTIES FrozenStable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
