CONSTANTS Size = 17 Widths = {1,2,4,8} Base = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
