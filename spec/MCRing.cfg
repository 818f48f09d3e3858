SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Depth = 5
INVARIANTS Rotation ThereAndBack Round Faithful
PROPERTIES OnlyEnd ReadBack
CHECK_DEADLOCK FALSE
