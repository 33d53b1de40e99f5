CONSTANTS Octets = {0, 97, 255} MaxLen = 2
SPECIFICATION Spec
INVARIANTS Pieces Distinct Ranges Known
CHECK_DEADLOCK FALSE
