SPECIFICATION Spec
CONSTANTS
Cameras = 4
Particles = 3
Least = 4
INVARIANTS NothingWrong Complete Apart
CHECK_DEADLOCK FALSE
