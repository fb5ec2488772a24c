CONSTANTS MaxN = 3
 MaxIters = 3
 Rs = {1, 3}
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS OneEach AtEnd
PROPERTIES Ends
CHECK_DEADLOCK FALSE
