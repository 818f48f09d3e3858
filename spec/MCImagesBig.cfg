SPECIFICATION Spec
CONSTANTS
H = 3
W = 3
Values = {0, 85, 255}
Spans = {0, 1}
INVARIANTS Grey Defined NotDarker BlackStays NoWindow EvenStays Laws
CHECK_DEADLOCK FALSE
