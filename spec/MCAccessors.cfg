SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS ShowsLast FieldsStay EqualIsEqual
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
