SPECIFICATION RecSpec
CONSTANTS TolPos = 2
 TolDir = 2
 TolImg = 300
INVARIANT Inv
