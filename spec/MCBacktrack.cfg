SPECIFICATION Spec
CONSTANTS NF = 3
 NP = 2
INVARIANTS Mutual Kept StartsAtGap EndsAtEnd NoFreeGap
