CONSTANTS Exact = TRUE
 Numeric = TRUE
 N = 3
 Power = "1/2"
 Damp = "1"
 Depth = 99
 HistOn = FALSE
 Emits = FALSE
 Faults = FALSE
SPECIFICATION LiveSpec
INVARIANTS Factorised ProperAll SweepExact
PROPERTY Local Converges

CHECK_DEADLOCK FALSE
