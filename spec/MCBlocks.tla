------------------------------ MODULE MCBlocks ------------------------------
(* Going through the block once and looking for each point among the four        *)
(* numbers, stopping when as many were found as there are points, selects the     *)
(* same points as looking them up one by one - for every choice, also of the      *)
(* same point twice or of points that the block does not have.                    *)
EXTENDS Blocks, TLC
CONSTANTS MaxPoints, Cameras
VARIABLES n, numbers, cam, at, fix, found
vars == << n, numbers, cam, at, fix, found >>
Nrs == 0..(MaxPoints + 1)
Init == /\ n \in 0..MaxPoints /\ cam \in 0..(Cameras - 1)
        /\ \E mine \in [1..4 -> Nrs] : numbers = [i \in 1..(4 * Cameras) |-> IF (i - 1) \div 4 = cam THEN mine[((i - 1) % 4) + 1] ELSE MaxPoints + 1 - (i % 3)]
        /\ at = 0 /\ fix = [i \in 1..4 |-> << >>] /\ found = 0
Points0 == [i \in 1..n |-> << i, 10 * i >>]
First(p) == LET nr == Chosen(numbers, cam) IN IF \E i \in 1..4 : nr[i] = p THEN CHOOSE i \in 1..4 : nr[i] = p /\ \A j \in 1..(i - 1) : nr[j] # p ELSE 0
Next == /\ n >= 4 /\ at < n /\ ~(at > 0 /\ found >= n)
        /\ at' = at + 1
        /\ LET i == First(at + 1) IN
           IF i = 0 THEN UNCHANGED << fix, found >> ELSE fix' = [fix EXCEPT ![i] = Points0[at + 1]] /\ found' = found + 1
        /\ UNCHANGED << n, numbers, cam >>
Spec == Init /\ [][Next]_vars
Ended == n < 4 \/ at = n \/ found >= n
Result == IF n >= 4 /\ found = 4 THEN fix ELSE None
SameAsLookedUp == Ended => Result = Four(Points0, numbers, cam)
OtherCamerasDoNotMatter == at = 0 => Four(Points0, numbers, cam) = Four(Points0, Chosen(numbers, cam), 0)
=============================================================================
