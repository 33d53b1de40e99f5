CONSTANTS Octets = {0, 65, 97, 255} MaxLen = 3
SPECIFICATION Spec
INVARIANTS Pieces Distinct Ranges Known
CHECK_DEADLOCK FALSE
