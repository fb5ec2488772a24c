CONSTANT Exact = TRUE
INIT Init
NEXT Next
INVARIANTS LinAlg Elem
CHECK_DEADLOCK FALSE
