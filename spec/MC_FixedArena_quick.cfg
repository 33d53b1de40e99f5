CONSTANTS Ids = {1,2,3,4} Vals = {7,8}
SPECIFICATION Spec
INVARIANT FAInv
PROPERTY Stable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
