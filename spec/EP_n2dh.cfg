CONSTANTS Exact = TRUE
 Numeric = TRUE
 N = 2
 Power = "1/2"
 Damp = "1/2"
 Depth = 4
 HistOn = FALSE
 Emits = FALSE
 Faults = FALSE
SPECIFICATION Spec
INVARIANTS Factorised ProperAll
PROPERTY Local
CONSTRAINT Lvl
CHECK_DEADLOCK FALSE
