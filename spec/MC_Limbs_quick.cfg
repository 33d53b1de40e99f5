SPECIFICATION Spec
INVARIANTS Arith Covers
CHECK_DEADLOCK FALSE
CONSTANTS LB = 2 N = 2
