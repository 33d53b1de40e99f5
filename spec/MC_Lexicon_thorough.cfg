CONSTANTS Vals = {1,2,3} Chars = {65,97,98} MaxLen = 2 MaxDefs = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Keep
CHECK_DEADLOCK FALSE
