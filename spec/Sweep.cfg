CONSTANTS C = 3
 Nis = {1, 2}
 MaxRuns = 3
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS Complete Partial Prefix
PROPERTIES Ends
CHECK_DEADLOCK FALSE
