----------------------------- MODULE MCSortgrid -----------------------------
(* Points are served in any order, dots looked at one after the other, for      *)
(* every small set of dots: the result is what the specification says, whatever *)
(* the order, and the dots stay as they were.                                   *)
EXTENDS Sortgrid, TLC
CONSTANTS W, H, NDots, NPoints, MaxEps
Spots == (0..W) \X (0..H)
Aims == (-2..W + 2) \X {-2, 0, 1, H + 1}
VARIABLES dots, aim, eps, todo, at, look, best, got
vars == << dots, aim, eps, todo, at, look, best, got >>
Init == /\ dots \in [1..NDots -> Spots]
        /\ aim \in [1..NPoints -> Aims]
        /\ eps \in 1..MaxEps
        /\ todo = 1..NPoints /\ at = 0 /\ look = 0 /\ best = 0
        /\ got = [i \in 1..NPoints |-> -1]
Take == /\ at = 0
        /\ \E i \in todo : todo' = todo \ {i}
                        /\ IF Seen(aim[i], W, H, eps, 0) THEN at' = i /\ got' = got ELSE at' = 0 /\ got' = [got EXCEPT ![i] = 0]
        /\ look' = 1 /\ best' = 0 /\ UNCHANGED << dots, aim, eps >>
Look == /\ at # 0 /\ look <= NDots
        /\ best' = IF Inside(aim[at], dots[look], eps, 0) /\ (best = 0 \/ Sq(aim[at], dots[look]) < Sq(aim[at], dots[best]))
                   THEN look ELSE best
        /\ look' = look + 1 /\ UNCHANGED << dots, aim, eps, todo, at, got >>
Done == /\ at # 0 /\ look > NDots
        /\ got' = [got EXCEPT ![at] = best] /\ at' = 0
        /\ UNCHANGED << dots, aim, eps, todo, look, best >>
Next == Take \/ Look \/ Done
Spec == Init /\ [][Next]_vars
Right == \A i \in 1..NPoints : got[i] # -1 => got[i] \in Choices(aim[i], dots, W, H, eps, 0)
\* all points with the same aim get the same dot: what one gets does not depend on the others
Alike == \A i, j \in 1..NPoints : got[i] # -1 /\ got[j] # -1 /\ aim[i] = aim[j] => got[i] = got[j]
\* with exact projections the choice is that of the least distance
Exact == \A i \in 1..NPoints : \A j \in Choices(aim[i], dots, W, H, eps, 0) \ {0} :
            \A k \in 1..NDots : Inside(aim[i], dots[k], eps, 0) => Sq(aim[i], dots[j]) <= Sq(aim[i], dots[k])
\* tolerance only adds choices
Wider == \A i \in 1..NPoints : Choices(aim[i], dots, W, H, eps, 0) \subseteq Choices(aim[i], dots, W, H, eps, 1)
=============================================================================
