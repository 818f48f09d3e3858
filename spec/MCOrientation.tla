---------------------------- MODULE MCOrientation ----------------------------
(* Orientation as a machine that works on a copy.  The camera is reduced to     *)
(* three numbers: t (pose, always free), c and k (free when their flag is on);  *)
(* a point X is seen at t + c X + k X^2.  One step of the machine solves for    *)
(* the least squares optimum, in which a free c or k is observed at its start   *)
(* value.  A twin run has the same dots of the selected points but others for   *)
(* the rest.                                                                    *)
EXTENDS Orientation, TLC
CONSTANTS N, KMax

X(i) == IF i % 2 = 0 THEN i \div 2 ELSE 0 - ((i + 1) \div 2)      \* 0, -1, 1, -2, 2 ...
Pts == 0..(N - 1)
Cams == [t : {0, 1}, c : 0..2, k : 0..KMax]
Tries == [t : -2..3, c : 0..2, k : 0..KMax]
See(cam, i) == cam.t + cam.c * X(i) + cam.k * X(i) * X(i)

VARIABLES true, start, cal, work, pnr, use, flag, bad, status, cal2, res, res2
vars == <<true, start, cal, work, pnr, use, flag, bad, status, cal2, res, res2>>

Sel == Selected(pnr, use)
Pnr2 == [i \in 1..N |-> IF (i - 1) \in Sel THEN pnr[i] ELSE IF (i - 1) \in bad THEN None ELSE pnr[i]]
Obs(i) == See(true, i)
Obs2(i) == IF i \in Sel THEN See(true, i) ELSE See(true, i) + 5

RECURSIVE SumOver(_, _)
SumOver(s, f) == IF s = {} THEN 0 ELSE LET i == CHOOSE j \in s : TRUE IN f[i] + SumOver(s \ {i}, f)
Objective(cam, sel, obs) ==
    SumOver(sel, [i \in sel |-> (obs[i] - See(cam, i)) * (obs[i] - See(cam, i))])
    + (cam.c - start.c) * (cam.c - start.c) + (cam.k - start.k) * (cam.k - start.k)
Allowed == {cam \in Tries : (flag.c = 0 => cam.c = start.c) /\ (flag.k = 0 => cam.k = start.k)}
Best(sel, obs) ==
    LET val == TLCEval([cam \in Allowed |-> Objective(cam, sel, obs)])
        least == CHOOSE v \in {val[cam] : cam \in Allowed} : \A cam \in Allowed : v <= val[cam]
    IN {cam \in Allowed : val[cam] = least}
O1 == [i \in Sel |-> Obs(i)]
Sel2 == Selected(Pnr2, use)
O2 == [i \in Sel2 |-> Obs2(i)]

Init == /\ true \in Cams /\ start \in {cam \in Cams : cam.t = 0}
        /\ pnr \in [1..N -> {0, None}] /\ use \in 0..3
        /\ flag \in [c : {0, 1}, k : {0, 1}]
        /\ bad \in {{}, Pts}
        /\ cal = start /\ cal2 = start /\ work = start /\ status = "raw" /\ res = {} /\ res2 = {}
Number == /\ status = "raw"
          /\ pnr' = [i \in 1..N |-> IF pnr[i] = 0 THEN i - 1 ELSE pnr[i]]
          /\ status' = "start"
          /\ UNCHANGED <<true, start, cal, work, use, flag, bad, cal2, res, res2>>
Iterate == /\ status = "start"
           /\ LET b == TLCEval(Best(Sel, O1)) IN
              /\ work' \in b
              /\ status' = IF Cardinality(b) = 1 THEN "settled" ELSE "lost"
           /\ UNCHANGED <<true, start, cal, pnr, use, flag, bad, cal2, res, res2>>
Commit == /\ status = "settled"
          /\ cal' = work /\ res' = Sel
          /\ cal2' = CHOOSE cam \in Best(Sel2, O2) : TRUE
          /\ res2' = Sel2
          /\ status' = "done"
          /\ UNCHANGED <<true, start, work, pnr, use, flag, bad>>
GiveUp == /\ status = "lost"
          /\ status' = "failed"
          /\ UNCHANGED <<true, start, cal, work, pnr, use, flag, bad, cal2, res, res2>>
Next == Number \/ Iterate \/ Commit \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Untouched == status # "done" => cal = start
KeptOff == (flag.c = 0 => cal.c = start.c) /\ (flag.k = 0 => cal.k = start.k)
OnlyChosen == status = "done" => cal = cal2 /\ res = res2
NoWorse == status = "done" => cal \in Best(Sel, O1)
(* exact dots of at least one point, and every number that can not move right already *)
Enough == Sel # {} /\ start.c = true.c /\ start.k = true.k
Recovers == status = "done" /\ Enough => cal = true
ChosenOnly == status = "done" => \A i \in res : pnr[i + 1] = i /\ Admitted(i, use)
Ends == <>(status \in {"done", "failed"})
=============================================================================
