SPECIFICATION Spec
CONSTANTS
 K = 4
 LenMargin = 0
 RelMargin = 0
 AddPart = 3
 MinCams = 2
 Places = {1, 3, 5, 6}
 NCur = 2
 NNext = 2
 NAhead = 0
 NFree = 0
 Lim = 4
 Acc = 3
 Adding = {FALSE}
 Lasts = {TRUE}
INVARIANTS Mutual SequentialFindsWinners LosersLostToBetter LinkedWithinReach NoReasonNoLink FreeOnly
