CONSTANTS Depth = 4
 Emits = FALSE
SPECIFICATION Spec
INVARIANTS Coherent PairWhole Kept ReadShows
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
