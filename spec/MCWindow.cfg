SPECIFICATION Spec
CONSTANTS MaxLen = 9
 Starts = {1, 7, 10}
INVARIANTS Window OwnContent InOrder Complete OnlyExisting
