CONSTANTS Pool = {1,2,3,4,5,6} MaxN = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
