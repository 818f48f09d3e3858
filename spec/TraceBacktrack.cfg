SPECIFICATION RecSpec
INVARIANT Inv
CONSTANT K = 4
CONSTANT LenMargin = 3
CONSTANT RelMargin = 60
CONSTANT AddPart = 768
CONSTANT MinCams = 2
