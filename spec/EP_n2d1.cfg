CONSTANTS Exact = TRUE
 Numeric = TRUE
 N = 2
 Power = "1"
 Damp = "3/4"
 Depth = 4
 HistOn = FALSE
 Emits = FALSE
 Faults = FALSE
SPECIFICATION Spec
INVARIANTS Factorised ProperAll
PROPERTY Local
CONSTRAINT Lvl
CHECK_DEADLOCK FALSE
