SPECIFICATION Spec
CONSTANTS
MaxLen = 5
Chars = {47, 97}
INVARIANT Inv
CHECK_DEADLOCK FALSE
