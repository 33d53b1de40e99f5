SPECIFICATION Spec
CONSTANTS N = 13 S = 12
INVARIANTS Keeps Flat
CHECK_DEADLOCK FALSE
