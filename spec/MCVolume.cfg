SPECIFICATION Spec
CONSTANTS Span = 3
 Slopes = 1
 Tops = {5, 6}
 NRays = 2
 TiltSpan = 1
INVARIANTS ByDefinition HoldsStart LayersMeet DepthsInRange StaysInside MiddleIsHalf Monotone
PROPERTY Grows
CHECK_DEADLOCK FALSE
