SPECIFICATION Spec
CONSTANTS
 K = 3
 MaxExt = 5
INVARIANTS Bounds Faithful Dropped
PROPERTIES Past Steady
CHECK_DEADLOCK FALSE
