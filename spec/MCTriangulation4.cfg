SPECIFICATION Spec
CONSTANTS NCam = 4
 Big = FALSE
INVARIANTS AnyOrder Unseen Swapped Midway Meet NoneFromOne
CHECK_DEADLOCK FALSE
