---------------------------- MODULE MCCandidates ----------------------------
(* The search as a state machine: entries are visited in x order from a start  *)
(* at or before the window, kept if they qualify, until the window is passed   *)
(* or the list of candidates is full.                                          *)
EXTENDS EpiCandidates, TLC
CONSTANTS Grid, Sizes, MaxPts, Ends
VARIABLES c, j, cand, over
vars == <<c, j, cand, over>>

Tg == { <<x, y, n, 1, 1, 1>> : x \in Grid, y \in Grid, n \in Sizes }
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Init == /\ \E m \in 0..MaxPts : \E p \in [1..m -> Tg], xa, ya, xb, yb \in Ends :
             /\ Sorted(p)
             /\ c = [ pts |-> p, xa |-> xa, ya |-> ya, xb |-> xb, yb |-> yb, eps |-> 1, own |-> <<1, 1, 1, 1>>,
                      lim |-> <<1, 1, 1, 1>>, den |-> 2, sx0 |-> -3, sx1 |-> 3, sy0 |-> -3, sy1 |-> 3, slack |-> 0 ]
        /\ cand = <<>> /\ over = FALSE
        \* the scan may start anywhere up to the first entry that is not left of the window
        /\ j \in { s \in 1..(MaxPts + 1) : s <= Len(c.pts) + 1
                     /\ \A i \in 1..(s - 1) : c.pts[i][1] <= Lo(c.xa, c.xb) - c.eps }
Visit == /\ ~over /\ ~OffSensor(c) /\ j <= Len(c.pts)
         /\ LET t == c.pts[j] IN
            IF t[1] > Hi(c.xa, c.xb) + c.eps THEN over' = TRUE /\ UNCHANGED <<cand, j>>
            ELSE IF ~Must(c, t) THEN j' = j + 1 /\ UNCHANGED <<cand, over>>
            ELSE IF Len(cand) >= MaxCand THEN over' = TRUE /\ UNCHANGED <<cand, j>>
            ELSE cand' = Append(cand, j) /\ j' = j + 1 /\ UNCHANGED over
         /\ UNCHANGED c
Spec == Init /\ [][Visit]_vars
Ended == over \/ OffSensor(c) \/ j > Len(c.pts)
Exact == Ended => LET m == MustList(c) IN
                  cand = IF Len(m) > MaxCand THEN SubSeq(m, 1, MaxCand) ELSE m
\* nothing closer than the tolerance is lost to the rounding of the slack
MustIsMay == \A i \in 1..Len(c.pts) : Must(c, c.pts[i]) => May(c, c.pts[i])
=============================================================================
