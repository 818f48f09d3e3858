SPECIFICATION Spec
CONSTANTS MaxT = 2
 Half = 4
INVARIANTS InOrder Complete Attached ThereAndBack Orientation OneToOne Monotone Plain
CHECK_DEADLOCK FALSE
