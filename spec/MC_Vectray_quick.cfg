SPECIFICATION Spec
CONSTANTS
N1 = 2
N2 = 1
Vals = {1,2}
MaxLen = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
