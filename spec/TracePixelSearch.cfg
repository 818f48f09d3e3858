SPECIFICATION RecSpec
INVARIANT Inv
CONSTANT K = 4
