SPECIFICATION Spec
CONSTANTS
 Big = 200
 Alphabet = {48, 49, 57, 120, 45, 46, 101, 32}
 MaxLen = 4
INVARIANTS Arith ReadBack Prefixes Clamps Inside Floats Exact
CHECK_DEADLOCK FALSE
