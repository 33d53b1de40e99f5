SPECIFICATION Spec
CONSTANTS
MaxNotes = 2
Sevs = {0,2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTRAINT Shallow
