-------------------------- MODULE TraceOrientation --------------------------
(* Decides recorded orientations.  Differences are lists of 19 whole numbers,   *)
(* one for each parameter (0 only if equal); "moved", "twin" and "again" in     *)
(* units far below any accuracy, "dev" (from the true camera) in the units of   *)
(* the tolerance Tol.                                                           *)
(*  t = "orient": pnr use flags glass, ok (converged), mat (the matrix is that   *)
(*     of the angles), twin (run with other dots of points that are not chosen), *)
(*     again (same run later), used and nres as reported, resdev (largest error  *)
(*     of a residual, 1e-7 mm), obj (objective at the result and the least one), *)
(*     err (error of the overall estimate, of s0; 1e-9 mm), errs (largest single *)
(*     estimate, 1e-6), lens (parameter, how far the optimum moves it and how    *)
(*     far the result is from the optimum), enough (start and dots allow        *)
(*     convergence), kind                                                        *)
(*  t = "raw": coarse orientation    t = "deriv": derivatives over the pose      *)
EXTENDS Orientation, Records

\* 0.002 mm, 1e-5 rad, 1e-3 mm for the principal point, 1e-6 for the first terms of distortion
Tol == [p \in Params |-> CASE p \in 1..3 -> 200 [] p \in 4..6 -> 1000 [] p \in 7..9 -> 100
                           [] p = 10 -> 1000 [] p = 11 -> 1000 [] p = 12 -> 1000 [] p \in 13..14 -> 1000
                           [] p \in 15..16 -> 300 [] OTHER -> 500]
Round == 3                                     \* rounding of a value that is stepped and stepped back
Still(moved, s) == \A p \in s : moved[p] <= Round
Nothing(moved) == \A p \in Params : moved[p] = 0
NoMore(obj, slack) == obj[1] <= obj[2] + (obj[2] \div 50) + slack

OrientFails(r) ==
    LET sel == TLCEval(Selected(r.pnr, r.use)) IN
    (IF r.ok THEN
        (IF Still(r.moved, Params \ Free(r.flags, r.glass)) THEN {} ELSE {"kept"})
        \cup (IF r.nres = 2 * Cardinality(sel) THEN {} ELSE {"residual-count"})
        \cup (IF r.via = "orient" \/ r.used = InOrder(sel) THEN {} ELSE {"used"})
        \cup (IF r.mat THEN {} ELSE {"matrix-not-of-the-angles"})
        \cup (IF r.kind = "fail" \/ r.resdev <= 3000 THEN {} ELSE {"residual-value"})
     ELSE IF Nothing(r.moved) /\ r.mat THEN {} ELSE {"untouched"})
    \cup (IF r.twin.ok = r.ok /\ \A p \in Params : r.twin.dev[p] <= 1000 THEN {} ELSE {"only-chosen"})
    \cup (IF r.again.same /\ \A p \in Params : r.again.dev[p] <= 1000 THEN {} ELSE {"depends-on-history"})
    \cup (IF r.arg THEN {} ELSE {"argument-changed"})
    \cup (IF ~r.enough THEN {}
          ELSE IF ~r.ok THEN (IF r.kind \in {"exact", "glass"} THEN {"does-not-converge"} ELSE {})
          ELSE (IF \/ r.kind = "exact" /\ \E p \in Params : r.dev[p] > Tol[p]
                   \/ r.kind = "glass" /\ \E p \in Params : r.dev[p] > 100 * Tol[p] THEN {"not-recovered"} ELSE {})
               \cup (IF NoMore(r.obj, IF r.kind = "pulled" THEN 1000000 ELSE 2000) THEN {} ELSE {"not-the-optimum"})
               \cup (IF r.kind \in {"noisy", "pulled"} /\ \E p \in Free(r.flags, 0) : r.moved[p] = 0 THEN {"allowed-parameter-kept"} ELSE {})
               \cup (IF \E i \in 1..Len(r.lens) : r.lens[i][2] > 3000 /\ 5 * r.lens[i][3] > 4 * r.lens[i][2] THEN {"lens-not-the-optimum"} ELSE {})
               \cup (IF r.err <= 200000 + (r.s0 \div 50) THEN {} ELSE {"error-estimate"})
               \cup (IF r.kind \in {"exact", "glass"} /\ r.errs > 1000 THEN {"errors-not-small"} ELSE {}))
RawFails(r) ==
    (IF Still(r.moved, 7..9 \cup Glass) THEN {} ELSE {"raw-changes-interior"})
    \cup (IF \A i \in 1..7 : r.dist[i] = 0 THEN {} ELSE {"raw-keeps-distortion"})
    \cup (IF ~r.ok THEN {"raw-does-not-converge"}
          ELSE (IF r.mat THEN {} ELSE {"matrix-not-of-the-angles"})
               \cup (IF ~r.noisy /\ \E p \in Pose : r.dev[p] > 25 * Tol[p] THEN {"raw-not-recovered"} ELSE {})
               \cup (IF NoMore(r.obj, 1000000) THEN {} ELSE {"raw-not-the-optimum"}))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
DerivFails(r) ==
    (IF r.err = "" /\ \A i \in 1..Len(r.want) : Abs(r.want[i] - r.got[i]) <= 400 + (Abs(r.want[i]) \div 100) THEN {} ELSE {"derivative"})
    \cup (IF Still(r.moved, Params) /\ r.mat THEN {} ELSE {"derivative-changes-camera"})
Failures(r) == CASE r.t = "orient" -> OrientFails(r) [] r.t = "raw" -> RawFails(r) [] r.t = "deriv" -> DerivFails(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
