SPECIFICATION Spec
CONSTANTS
 K = 5
 MaxExt = 7
INVARIANTS Bounds Faithful Dropped
PROPERTIES Past Steady
CHECK_DEADLOCK FALSE
