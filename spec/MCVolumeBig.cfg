SPECIFICATION Spec
CONSTANTS Span = 3
 Slopes = 2
 Tops = {5}
 NRays = 3
 TiltSpan = 1
INVARIANTS ByDefinition HoldsStart LayersMeet DepthsInRange StaysInside MiddleIsHalf Monotone
PROPERTY Grows
CHECK_DEADLOCK FALSE
