CONSTANTS Exact = FALSE
 Numeric = FALSE
 N = 3
 Power = "1/2"
 Damp = "1/2"
 Depth = 24
 HistOn = TRUE
 Emits = TRUE
 Faults = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
