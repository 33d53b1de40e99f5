SPECIFICATION Spec
CONSTANTS
MaxLen = 4
Chars = {47, 97}
INVARIANT Inv
CHECK_DEADLOCK FALSE
