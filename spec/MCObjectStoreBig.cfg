SPECIFICATION Spec
CONSTANTS MaxObj = 4
 Depth = 7
 Shared = FALSE
INVARIANTS Separate OwnCells
CHECK_DEADLOCK FALSE
