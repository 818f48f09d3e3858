SPECIFICATION Spec
CONSTANTS MaxK = 3
 Small = FALSE
INVARIANTS Laws Snell InPlane Places Returns OnePoint Appears
CHECK_DEADLOCK FALSE
