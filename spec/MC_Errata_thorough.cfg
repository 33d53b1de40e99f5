SPECIFICATION Spec
CONSTANTS
MaxNotes = 3
Sevs = {0,2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
