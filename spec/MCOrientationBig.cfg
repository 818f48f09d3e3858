SPECIFICATION Spec
CONSTANTS N = 6
 KMax = 1
INVARIANTS Untouched KeptOff OnlyChosen NoWorse Recovers ChosenOnly
CHECK_DEADLOCK FALSE
