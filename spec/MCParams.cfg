SPECIFICATION Spec
CONSTANT MaxCams = 4
 MaxChanges = 0
CONSTRAINT Few
INVARIANTS OneLineEach ReadsBack WritesBack
CHECK_DEADLOCK FALSE
