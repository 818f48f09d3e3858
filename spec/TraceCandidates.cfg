SPECIFICATION RecSpec
INVARIANT Inv
CONSTANT MaxCand = 40
