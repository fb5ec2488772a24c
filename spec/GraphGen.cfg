CONSTANTS MaxN = 4
 MaxOps = 3
 Emits = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
