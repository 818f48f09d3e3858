----------------------------- MODULE TraceBlocks -----------------------------
(* Decides what reading calibration block files and choices in them gave.        *)
(*  block: lines (ok, v: number and place as strings); res: list of points       *)
(*  places: lines; res: the places only                                          *)
(*  four: lines, numbers, cam (from 0); res (empty: none), err                   *)
(*  radius: given ("" for a missing file), res                                   *)
EXTENDS Blocks, Records
PlacesOf(q) == [i \in 1..Len(q) |-> Tail(q[i])]
Failures(r) ==
    CASE r.t = "block" -> IF r.err = "" /\ r.res = Points(r.lines) THEN {} ELSE {"block-points-wrong"}
      [] r.t = "places" -> IF r.err = "" /\ r.res = PlacesOf(Points(r.lines)) THEN {} ELSE {"block-places-wrong"}
      [] r.t = "four" -> LET f == Four(PlacesOf(Points(r.lines)), r.numbers, r.cam) IN
                         IF f = None THEN IF r.res = None THEN {} ELSE {"points-chosen-that-are-not-there"}
                         ELSE IF r.err = "" /\ r.res = f THEN {} ELSE {"chosen-points-wrong"}
      [] r.t = "radius" -> IF r.err = "" /\ r.res = (IF r.given = "" THEN "25" ELSE r.given) THEN {} ELSE {"radius-wrong"}
Inv == Report(Failures(Recs[pos]))
=============================================================================
