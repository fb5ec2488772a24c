CONSTANTS N = 3
 R = 2
 MaxRuns = 2
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS Exact Unique_ Full
PROPERTIES Ends
CHECK_DEADLOCK FALSE
