--------------------------- MODULE TraceConversions ---------------------------
(* Decides recorded conversions.  t = "pixel": exact; "brown": distortion on the    *)
(* lattice and back; "round": any distortion and back; "list": flat positions of a  *)
(* camera.  tol = 1: the caller asked for a fine correction.                         *)
EXTENDS Conversions, Records
Bad(b, name) == IF b THEN {} ELSE {name}
AllSame(got, pts, f(_)) == Len(got) = Len(pts) /\ \A i \in 1..Len(pts) : got[i] = f(pts[i])
Id(p) == p
(* the correction stops when the radius changes by less than 1e-5 of itself          *)
BackTol(r) == IF r.tol = 1 THEN 3 ELSE 60
PixelFails(r) ==
    LET ToMetric(p) == Metric(p, r.cam)
    IN Bad(AllSame(r.metric, r.pts, ToMetric), "pixel-to-metric")
       \cup Bad(AllSame(r.back, r.pts, Id), "metric-to-pixel")
       \cup Bad(AllSame(r.arrback, r.pts, Id), "array-to-pixel")
       \cup Bad(AllSame(r.arrmetric, r.whole, ToMetric), "array-to-metric")
BrownFails(r) == Bad(CloseVec(r.dist, Distorted(r.v, r.a), 6), "distortion")
                 \cup Bad(CloseVec(r.flat, r.at, BackTol(r)), "correction-of-distortion")
RoundFails(r) == Bad(CloseVec(r.dist, r.refdist, 3), "distortion")
                 \cup Bad(CloseVec(r.flat, r.at, BackTol(r)), "correction-of-distortion")
                 \cup Bad(CloseVec(r.again, r.dist, BackTol(r) + 20), "distortion-again")
ListFails(r) ==
    Bad(r.kept = 1, "targets-changed")
    \cup Bad(\A i \in 1..Len(r.want) : r.nums[i] = r.want[i].pnr, "numbers-of-targets")
    \cup Bad(Sorted(r.got), "not-in-order")
    \cup (IF ~OnePerTarget(r.got, r.want) THEN {"not-one-entry-per-target"}
          ELSE Bad(\A i \in 1..Len(r.want) : LET e == Entry(r.got, r.want[i].pnr) IN Close(e.x, r.want[i].x, 20) /\ Close(e.y, r.want[i].y, 20), "entry-of-another-target"))
    \cup Bad(r.arr = r.got, "arrays-of-list")
    \cup Bad(Len(r.answer) = Len(r.asked) /\ \A i \in 1..Len(r.asked) :
                IF r.asked[i] \in Numbers(r.got) THEN LET e == Entry(r.got, r.asked[i]) IN r.answer[i] = <<e.x, e.y>> ELSE r.answer[i] = <<>>, "positions-by-number")
Failures(r) == IF r.err # "" THEN {"raises"}
               ELSE IF r.t = "pixel" THEN PixelFails(r) ELSE IF r.t = "brown" THEN BrownFails(r)
               ELSE IF r.t = "round" THEN RoundFails(r) ELSE ListFails(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
