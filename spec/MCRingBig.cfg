SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Depth = 7
INVARIANTS Rotation ThereAndBack Round Faithful
PROPERTIES OnlyEnd ReadBack
CHECK_DEADLOCK FALSE
