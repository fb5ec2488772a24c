CONSTANTS Exact = FALSE
 Numeric = TRUE
 N = 3
 Power = "1"
 Damp = "1/2"
 Depth = 0
 HistOn = TRUE
 Emits = FALSE
 Faults = FALSE
SPECIFICATION Spec
INVARIANTS DampedConverges


CHECK_DEADLOCK FALSE
