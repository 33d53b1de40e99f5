CONSTANTS MaxV = 12 Scales = {1,2,3,4,6,9,10}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
