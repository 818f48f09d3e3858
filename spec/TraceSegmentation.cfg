SPECIFICATION RecSpec
INVARIANT Inv
