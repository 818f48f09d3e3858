SPECIFICATION Spec
CONSTANTS
MaxPoints = 5
Cameras = 2
INVARIANTS SameAsLookedUp OtherCamerasDoNotMatter
CHECK_DEADLOCK FALSE
