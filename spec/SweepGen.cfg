CONSTANTS C = 4
 Nis = {1, 2, 3}
 MaxRuns = 3
 Emits = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
