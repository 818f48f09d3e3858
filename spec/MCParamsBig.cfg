SPECIFICATION Spec
CONSTANT MaxCams = 4
 MaxChanges = 2
CONSTRAINT Few
INVARIANTS OneLineEach ReadsBack WritesBack
CHECK_DEADLOCK FALSE
