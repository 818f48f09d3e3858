SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANTS CopyIsEqual MatrixBelongs RoundTrip SameIsEquality
PROPERTY OnlyItsPart
CHECK_DEADLOCK FALSE
