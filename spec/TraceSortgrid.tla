---------------------------- MODULE TraceSortgrid ----------------------------
(* Decides recorded calls.  Coordinates in 1/64 pixel.                          *)
(*  t = "sort": w, h, eps, tol, proj (projections of the points), dots: rows     *)
(*      << x, y, n, nx, ny, sumg, tnr, pnr >>, after: the dots after the call     *)
(*      got: rows << pnr, x, y, n, nx, ny, sumg, tnr >>, <<>> for an unused entry *)
(*      perm: the points served in another order, gotperm: what they got          *)
(*  t = "near": aim, eps, dots, got: number of the dot or 0 (exact)               *)
(*  t = "block": lines: number sequences (strings), got: err, rows                *)
EXTENDS Sortgrid, Records

Row(d, nr) == << nr, d[1], d[2], d[3], d[4], d[5], d[6], d[7] >>
Fits(r, i, e) ==
    LET ch == Choices(r.proj[i], r.dots, r.w, r.h, r.eps, r.tol) IN
    IF e = <<>> THEN 0 \in ch
    ELSE \E j \in ch \ {0} : \A k \in 2..8 : e[k] = Row(r.dots[j], 0)[k]
SortFails(r) ==
    IF r.err # "" THEN {"no-result"}
    ELSE IF Len(r.got) # r.nfix \/ Len(r.gotperm) # r.nfix THEN {"entries-missing"}
    ELSE (IF \A i \in 1..r.nfix : Fits(r, i, r.got[i]) THEN {}
          ELSE {IF \E i \in 1..r.nfix : r.got[i] = <<>> /\ ~Fits(r, i, <<>>) THEN "dot-not-assigned" ELSE "wrong-dot-assigned"})
         \cup (IF \A i \in 1..r.nfix : r.got[i] = <<>> \/ r.got[i][1] = i - 1 THEN {} ELSE {"wrong-number"})
         \cup (IF r.after = r.dots THEN {} ELSE {"dots-changed"})
         \* with another order of the points each gets the same dot
         \cup (IF \A i \in 1..r.nfix : LET a == r.got[r.perm[i]] b == r.gotperm[i] IN
                    IF a = <<>> \/ b = <<>> THEN a = b ELSE b[1] = i - 1 /\ SubSeq(a, 2, 8) = SubSeq(b, 2, 8)
               THEN {} ELSE {"order-of-points-matters"})
NearFails(r) == IF r.err # "" THEN {"no-result"}
                ELSE LET ch == { j \in 1..Len(r.dots) : Inside(r.aim, r.dots[j], r.eps, 0) }
                         best == { j \in ch : \A k \in ch : Sq(r.aim, r.dots[j]) <= Sq(r.aim, r.dots[k]) }
                     IN IF best = {} THEN IF r.got = 0 THEN {} ELSE {"dot-outside-the-window"}
                        ELSE IF r.got \in best THEN {} ELSE {"not-the-nearest-dot"}
\* a block file: each line a number and a position
BlockFails(r) ==
    IF \A i \in 1..Len(r.lines) : Len(r.lines[i]) = 4
    THEN IF ~r.got.err /\ r.got.rows = r.lines THEN {} ELSE {"points-of-block-file"}
    ELSE IF r.got.err \/ r.got.rows = <<>> THEN {} ELSE {"damaged-block-file"}
Failures(r) == CASE r.t = "sort" -> SortFails(r) [] r.t = "near" -> NearFails(r) [] r.t = "block" -> BlockFails(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
