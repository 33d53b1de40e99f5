CONSTANTS Pool = {1,2,3,4} Keys = {0,1,3} Sizes = {1,3,7}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Order
CHECK_DEADLOCK FALSE
