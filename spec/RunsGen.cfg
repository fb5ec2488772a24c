CONSTANTS MaxN = 3
 MaxIters = 3
 Rs = {1, 3}
 Emits = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
