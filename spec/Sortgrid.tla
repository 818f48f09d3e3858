------------------------------- MODULE Sortgrid -------------------------------
(* Assigning detected dots to known points: a point gets the nearest dot       *)
(* inside the window around its projection.  Integer coordinates; projections   *)
(* are known to within tol.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Far(p, q) == Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
Sq(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
\* on the image, with a margin of eps
Seen(p, w, h, eps, tol) == p[1] > -eps - tol /\ p[2] > -eps - tol /\ p[1] < w + eps + tol /\ p[2] < h + eps + tol
Inside(p, q, eps, tol) == Far(p, q) < eps + tol
\* distances from p known to within tol: q may be as near as r
Slack(p, q, r, tol) == 4 * tol * (Far(p, q) + Far(p, r) + tol)
MayBeNearer(p, q, r, tol) == Sq(p, q) <= Sq(p, r) + Slack(p, q, r, tol)
\* dots that may be assigned; 0 stands for none
Choices(p, dots, w, h, eps, tol) ==
    LET surely == { j \in 1..Len(dots) : Inside(p, dots[j], eps, -tol) }
        maybe == { j \in 1..Len(dots) : Inside(p, dots[j], eps, tol) }
    IN (IF Seen(p, w, h, eps, tol) THEN { j \in maybe : \A k \in surely : MayBeNearer(p, dots[j], dots[k], tol) } ELSE {})
       \cup (IF surely = {} \/ ~Seen(p, w, h, eps, -tol) THEN {0} ELSE {})
=============================================================================
