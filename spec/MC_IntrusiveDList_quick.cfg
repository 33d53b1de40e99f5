CONSTANTS Pool = {1,2,3,4} MaxN = 5
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
