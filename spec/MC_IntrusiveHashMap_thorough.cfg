CONSTANTS Pool = {1,2,3,4,5} Keys = {0,1,3,4} Sizes = {1,3,7}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Order
CHECK_DEADLOCK FALSE
