CONSTANTS MaxN = 8
SPECIFICATION Spec
INVARIANTS Once Order Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
