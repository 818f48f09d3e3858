SPECIFICATION Spec
CONSTANTS
Cameras = 4
Particles = 2
Least = 0
INVARIANTS NothingWrong Complete Apart
CHECK_DEADLOCK FALSE
