SPECIFICATION Spec
CONSTANTS
Particles = 2
Frames = 4
Length = 7
Speed = 1
Reach = 2
Turn = 2
Apart = 5
INVARIANTS NothingWrong Mutual Followed NoMore
CHECK_DEADLOCK FALSE
