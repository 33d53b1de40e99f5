SPECIFICATION Spec
CONSTANTS
N1 = 2
N2 = 2
Vals = {1,2}
MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
