CONSTANTS Vals = {1,2} Chars = {65,97,98} MaxLen = 1 MaxDefs = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Keep
CHECK_DEADLOCK FALSE
