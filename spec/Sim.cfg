CONSTANTS N = 5
 InPlace = FALSE
SPECIFICATION Spec
INVARIANTS Kept
CHECK_DEADLOCK FALSE
