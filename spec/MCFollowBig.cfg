SPECIFICATION Spec
CONSTANTS
Particles = 2
Frames = 5
Length = 8
Speed = 1
Reach = 2
Turn = 2
Apart = 5
INVARIANTS NothingWrong Mutual Followed NoMore
CHECK_DEADLOCK FALSE
