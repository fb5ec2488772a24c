CONSTANTS MaxN = 6
 MaxOps = 4
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS Open Alike Latest
CHECK_DEADLOCK FALSE
