SPECIFICATION Spec
CONSTANTS MaxT = 3
 Half = 8
INVARIANTS InOrder Complete Attached ThereAndBack Orientation OneToOne Monotone Plain
CHECK_DEADLOCK FALSE
