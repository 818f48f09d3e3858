SPECIFICATION Spec
CONSTANTS
 Cams = {1}
 Frames = {1, 2}
 MaxLen = 2
 MaxSteps = 3
INVARIANTS TargetsRight ParticlesRight
CHECK_DEADLOCK FALSE
