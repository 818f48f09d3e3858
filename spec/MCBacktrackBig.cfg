SPECIFICATION Spec
CONSTANTS NF = 4
 NP = 2
INVARIANTS Mutual Kept StartsAtGap EndsAtEnd NoFreeGap
