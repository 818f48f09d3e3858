SPECIFICATION Spec
CONSTANTS
 K = 4
 LenMargin = 0
 RelMargin = 0
 AddPart = 3
 MinCams = 2
 Places = {1, 3}
 NCur = 2
 NNext = 1
 NAhead = 1
 NFree = 1
 Lim = 4
 Acc = 3
 Adding = {TRUE}
 Lasts = {FALSE}
INVARIANTS Mutual SequentialFindsWinners LosersLostToBetter LinkedWithinReach NoReasonNoLink FreeOnly
