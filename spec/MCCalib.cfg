SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS CopyIsEqual MatrixBelongs RoundTrip SameIsEquality
PROPERTY OnlyItsPart
CHECK_DEADLOCK FALSE
