------------------------------- MODULE Blocks -------------------------------
(* Calibration blocks (numbered points in space, one per line), the four points  *)
(* per camera that are chosen in them by their place, and the search radius.     *)
EXTENDS Integers, Sequences, FiniteSets
\* a block: for each line whether it can be read, and the point on it
Points(lines) == IF lines # << >> /\ \A i \in 1..Len(lines) : lines[i].ok THEN [i \in 1..Len(lines) |-> lines[i].v] ELSE << >>
\* what the choice file names for a camera (counted from 0), four places in the block for each camera
Chosen(numbers, cam) == SubSeq(numbers, 4 * cam + 1, 4 * cam + 4)
Fits(n, nr) == /\ n >= 4 /\ Len(nr) = 4 /\ \A i \in 1..4 : nr[i] \in 1..n
               /\ \A i, j \in 1..4 : i # j => nr[i] # nr[j]
Selected(points, nr) == [i \in 1..4 |-> points[nr[i]]]
None == << >>
Four(points, numbers, cam) == LET nr == Chosen(numbers, cam) IN IF Fits(Len(points), nr) THEN Selected(points, nr) ELSE None
=============================================================================
