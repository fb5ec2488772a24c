CONSTANT Exact = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
