CONSTANTS MaxV = 60 Scales = {1,2,3,4,5,6,7,8,9,10,12,15,30}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
