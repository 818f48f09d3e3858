SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANTS ShowsLast FieldsStay EqualIsEqual
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
