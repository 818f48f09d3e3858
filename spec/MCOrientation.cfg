SPECIFICATION Spec
CONSTANTS N = 4
 KMax = 1
INVARIANTS Untouched KeptOff OnlyChosen NoWorse Recovers ChosenOnly
PROPERTY Ends
CHECK_DEADLOCK FALSE
