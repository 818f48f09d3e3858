SPECIFICATION Spec
CONSTANTS MaxLen = 60
 Starts = {1, 7, 10}
INVARIANTS Window OwnContent InOrder Complete OnlyExisting
