SPECIFICATION Spec
CONSTANTS MaxObj = 3
 Depth = 5
 Shared = FALSE
INVARIANTS Separate OwnCells
CHECK_DEADLOCK FALSE
