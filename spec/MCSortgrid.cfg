SPECIFICATION Spec
CONSTANTS W = 2
 H = 1
 NDots = 2
 NPoints = 2
 MaxEps = 2
INVARIANTS Right Alike Exact Wider
CHECK_DEADLOCK FALSE
