CONSTANTS N = 5
 R = 1
 MaxRuns = 2
 Emits = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
