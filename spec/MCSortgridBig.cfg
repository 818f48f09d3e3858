SPECIFICATION Spec
CONSTANTS W = 3
 H = 2
 NDots = 2
 NPoints = 2
 MaxEps = 3
INVARIANTS Right Alike Exact Wider
CHECK_DEADLOCK FALSE
