SPECIFICATION Spec
CONSTANTS N = 9 S = 7
INVARIANTS Keeps Flat
CHECK_DEADLOCK FALSE
