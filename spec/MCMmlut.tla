------------------------------- MODULE MCMmlut -------------------------------
(* A position wanders over a table and its surroundings.                           *)
EXTENDS Mmlut, TLC
CONSTANTS MaxR, MaxZ, Vals
VARIABLES t, q
vars == <<t, q>>
Init == /\ \E nr \in 1..MaxR, nz \in 1..MaxZ : \E d \in [1..nr -> [1..nz -> Vals]] : t = [nr |-> nr, nz |-> nz, data |-> d]
        /\ q = <<0, 0>>
Step(d) == q' = <<q[1] + d[1], q[2] + d[2]>> /\ q'[1] \in 0..(4 * MaxR) /\ q'[2] \in -3..(4 * MaxZ) /\ UNCHANGED t
Next == \E d \in {<<1, 0>>, <<0, 1>>, <<0, -1>>} : Step(d)
Spec == Init /\ [][Next]_vars
Dom == (0..(t.nr - 1)) \X (0..(t.nz - 1))
InTable == Inside(t, q) => Corners(t, Cell(q)) \subseteq Dom
AtNodes == Inside(t, q) /\ Frac(q) = <<0, 0>> => Look16(t, q) = 16 * At(t, Cell(q)[1], Cell(q)[2])
Between == Inside(t, q) => \A lo, hi \in Vals : (\A c \in Corners(t, Cell(q)) : lo <= At(t, c[1], c[2]) /\ At(t, c[1], c[2]) <= hi)
                           => 16 * lo <= Look16(t, q) /\ Look16(t, q) <= 16 * hi
(* no other entry has an influence                                                   *)
OwnCell == Inside(t, q) => \A c \in Dom \ Corners(t, Cell(q)) : \A v \in Vals : Look16([t EXCEPT !.data[c[1] + 1][c[2] + 1] = v], q) = Look16(t, q)
(* from one cell to the next there is no jump, nor at the last row                    *)
Smooth == [][Inside(t, q) /\ Inside(t, q') => \A m \in {12} : (\A v \in Vals : AbsI(v) <= m) => Close(Look16(t, q), Look16(t, q'), 4 * 2 * m)]_vars
LastFits == Inside(t, q) => Last16(t, q) = Look16(t, q)
NotBoth == ~(Inside(t, q) /\ OnLast(t, q))
=============================================================================
