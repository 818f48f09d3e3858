SPECIFICATION Spec
CONSTANTS
MaxPoints = 7
Cameras = 3
INVARIANTS SameAsLookedUp OtherCamerasDoNotMatter
CHECK_DEADLOCK FALSE
