SPECIFICATION Spec
CONSTANTS
Cameras = 3
Particles = 3
Least = 0
INVARIANTS NothingWrong Complete Apart
CHECK_DEADLOCK FALSE
