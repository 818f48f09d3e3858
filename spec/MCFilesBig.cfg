SPECIFICATION Spec
CONSTANTS
 Cams = {1, 2}
 Frames = {1, 2}
 MaxLen = 2
 MaxSteps = 4
INVARIANTS TargetsRight ParticlesRight
CHECK_DEADLOCK FALSE
