CONSTANTS Exp = {"E"}
 Seeds = {1, 2}
 MaxT = 2
 Keys = {1, 2}
 Vals = {1, 2}
 Depth = 0
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS KeysUnique NoGhosts CleanAfter DiskIsOld
PROPERTIES Durable FirstStays Isolated CrashLoses LastWins
CHECK_DEADLOCK FALSE
