SPECIFICATION RecSpec
CONSTANTS TolPos = 2
 TolRef = 5
INVARIANT Inv
