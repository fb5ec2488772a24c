CONSTANTS Exp = {"E", "Q"}
 Seeds = {1, 2, 3}
 MaxT = 2
 Keys = {1, 2, 3, 4}
 Vals = {1, 2, 3, 4, 5, 6}
 Depth = 22
 Emits = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
