SPECIFICATION Spec
CONSTANTS NCam = 3
 Big = FALSE
INVARIANTS AnyOrder Unseen Swapped Midway Meet NoneFromOne
CHECK_DEADLOCK FALSE
