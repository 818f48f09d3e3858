-------------------------- MODULE TraceSegmentation --------------------------
(* Decides recorded calls of the detector.                                     *)
EXTENDS Segmentation, Records

Par(r) == Clamp([ w |-> r.w, h |-> r.h, img |-> r.img, thr |-> r.thr[r.cam + 1], disco |-> r.disco,
                  imx |-> r.imx, imy |-> r.imy, x0 |-> 0, x1 |-> 0, y0 |-> 0, y1 |-> 0,
                  nnmin |-> r.lim[1], nnmax |-> r.lim[2], nxmin |-> r.lim[3], nxmax |-> r.lim[4],
                  nymin |-> r.lim[5], nymax |-> r.lim[6], summin |-> r.lim[7] ],
                r.win[1], r.win[2], r.win[3], r.win[4])

\* t = <<n, nx, ny, sumg, x, y, pnr, tnr>>
Near(a, b) == LET d == a - b IN d <= 2 /\ d >= -2
Same(s, t) == /\ s.n = t[1] /\ s.nx = t[2] /\ s.ny = t[3] /\ s.sumg = t[4]
              /\ Near(s.x, t[5]) /\ Near(s.y, t[6])

TooSmall(r) == r.h < r.win[4] \/ r.w < r.win[2]

Failures(r) ==
    IF TooSmall(r)
    THEN IF r.err = "ValueError" THEN {} ELSE {"window-larger-than-image-accepted"}
    ELSE IF r.err # "" THEN {"failed"}
    ELSE
    LET exp == Targets(Par(r))
        got == r.targets
        ne == Len(exp)
        ng == Len(got)
        exact == ne = ng /\ \A i \in 1..ne : Same(exp[i], got[i])
    IN  (IF exact THEN {}
         ELSE LET miss == \E i \in 1..ne : \A j \in 1..ng : ~Same(exp[i], got[j])
                  extra == \E j \in 1..ng : \A i \in 1..ne : ~Same(exp[i], got[j])
                  lim == \E i \in 1..ne : AtLimit(Par(r), exp[i]) /\ \A j \in 1..ng : ~Same(exp[i], got[j])
              IN  (IF miss THEN {"spot-missing"} ELSE {})
                  \cup (IF lim THEN {"spot-at-limit-missing"} ELSE {})
                  \cup (IF extra THEN {"target-is-no-spot"} ELSE {})
                  \cup (IF ~miss /\ ~extra /\ ng # ne THEN {"spot-counted-twice"} ELSE {})
                  \cup (IF ~miss /\ ~extra /\ ng = ne THEN {"scan-order"} ELSE {}))
        \cup (IF \A j \in 1..ng : got[j][7] = j - 1 THEN {} ELSE {"numbering"})
        \cup (IF \A j \in 1..ng : got[j][8] = -1 THEN {} ELSE {"already-corresponding"})
        \cup (IF r.unchanged THEN {} ELSE {"image-changed"})
        \cup (IF r.again = got THEN {} ELSE {"repetition-differs"})

Inv == Report(Failures(Recs[pos]))
=============================================================================
