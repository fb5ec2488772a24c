CONSTANTS Depth = 3
 Emits = TRUE
SPECIFICATION Spec
INVARIANTS Coherent PairWhole Kept ReadShows Emit
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
