CONSTANTS Exact = TRUE
 Numeric = TRUE
 N = 2
 Power = "1/2"
 Damp = "1"
 Depth = 99
 HistOn = FALSE
 Emits = FALSE
 Faults = TRUE
SPECIFICATION LiveSpec
INVARIANTS Factorised ProperAll SweepExact
PROPERTY Local Converges

CHECK_DEADLOCK FALSE
