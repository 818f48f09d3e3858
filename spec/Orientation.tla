----------------------------- MODULE Orientation -----------------------------
(* Orientation of one camera from known points and the dots seen of them.       *)
(* Parameters are numbered: 1..3 position, 4..6 angles, 7 principal distance,   *)
(* 8 9 principal point, 10..16 distortion (k1 k2 k3 p1 p2 scale shear),         *)
(* 17..19 glass vector.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

Params == 1..19
Pose == 1..6
Inner == 7..16
Glass == 17..19
None == -999

(* known points are counted from 0; a dot is valid for its point only          *)
Admitted(i, useflag) == CASE useflag = 1 -> i % 2 # 0 [] useflag = 2 -> i % 2 = 0 [] useflag = 3 -> i % 3 # 0 [] OTHER -> TRUE
Selected(pnr, useflag) == {i \in 0..(Len(pnr) - 1) : pnr[i + 1] = i /\ Admitted(i, useflag)}
InOrder(s) == LET RECURSIVE F(_) F(q) == IF q = {} THEN <<>> ELSE LET m == CHOOSE x \in q : \A y \in q : x <= y IN <<m>> \o F(q \ {m}) IN F(s)

(* the parameters that orientation may change: flags[1..10] for Inner          *)
Free(flags, glass) == Pose \cup {p \in Inner : flags[p - 6] = 1} \cup (IF glass = 1 THEN Glass ELSE {})
(* those of external calibration, which drops the distortion altogether         *)
RawFree == Pose
NoDistortion == <<0, 0, 0, 0, 0, 1, 0>>
=============================================================================
