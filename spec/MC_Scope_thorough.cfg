CONSTANTS Vars = {1,2,3} Vals = {0,1,2} MaxDepth = 3
SPECIFICATION Spec
INVARIANT Depth
PROPERTY Undone
CHECK_DEADLOCK FALSE
