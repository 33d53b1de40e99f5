CONSTANTS Size = 8 Widths = {1,2,4} Base = 1
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
