SPECIFICATION Spec
CONSTANTS
Names = {1, 2}
Depth = 2
Modes = {511, 256}
Max = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
