CONSTANTS Exact = FALSE
 Numeric = FALSE
 N = 7
 Power = "1/2"
 Damp = "1/2"
 Depth = 60
 HistOn = TRUE
 Emits = TRUE
 Faults = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
