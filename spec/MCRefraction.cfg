SPECIFICATION Spec
CONSTANTS MaxK = 2
 Small = TRUE
INVARIANTS Laws Snell InPlane Places Returns OnePoint Appears
CHECK_DEADLOCK FALSE
