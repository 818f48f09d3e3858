SPECIFICATION RecSpec
CONSTANTS TolPos = 20
 TolBox = 100
 TolLine = 60
 TolPix = 60
INVARIANT Inv
CHECK_DEADLOCK FALSE
