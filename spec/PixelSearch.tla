----------------------------- MODULE PixelSearch -----------------------------
(* Searching the targets of one image for the continuation of a particle.      *)
(* Integer units (a fraction of a pixel).  A search c holds pts: << x, y, tnr >>*)
(* in y order, cx, cy the centre, dl, dr, du, dd the distances to the borders, *)
(* w, h the size of the image.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANT K                          \* how many are returned

CentreInImage(c) == c.cx >= 0 /\ c.cx <= c.w /\ c.cy >= 0 /\ c.cy <= c.h
Inside(c, t) ==
    /\ t[1] > c.cx - c.dl /\ t[1] < c.cx + c.dr /\ t[1] > 0 /\ t[1] < c.w
    /\ t[2] > c.cy - c.du /\ t[2] < c.cy + c.dd /\ t[2] > 0 /\ t[2] < c.h
Dist2(c, t) == (t[1] - c.cx) * (t[1] - c.cx) + (t[2] - c.cy) * (t[2] - c.cy)
Linked(t) == t[3] # -1
\* indices (from 1) of the targets that may be returned
Fitting(c, linked) == IF ~CentreInImage(c) THEN {}
                      ELSE { i \in 1..Len(c.pts) : Inside(c, c.pts[i]) /\ Linked(c.pts[i]) = linked }

\* got: a sequence of indices; the k nearest of the fitting ones, nearest first
NoDuplicates(got) == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
OnlyFitting(fit, got) == \A i \in 1..Len(got) : got[i] \in fit
NearestFirst(c, got) == \A i \in 1..(Len(got) - 1) : Dist2(c, c.pts[got[i]]) <= Dist2(c, c.pts[got[i + 1]])
NoNearerLeftOut(c, fit, got, k) ==
    LET in == { got[i] : i \in 1..Len(got) } IN
    \A i \in fit \ in : /\ Len(got) = k
                        /\ \A j \in in : Dist2(c, c.pts[i]) >= Dist2(c, c.pts[j])
Legal(c, got, k, linked) == LET fit == Fitting(c, linked) IN
    OnlyFitting(fit, got) /\ NoDuplicates(got) /\ NearestFirst(c, got) /\ NoNearerLeftOut(c, fit, got, k)

(* Merging what the cameras found.  slots: for each camera a sequence of       *)
(* particle numbers (-1 for an empty slot); merged: << particle, freq, cams >>.*)
FoundBy(slots, p) == { c \in 1..Len(slots) : \E k \in 1..Len(slots[c]) : slots[c][k] = p }
Particles(slots) == { slots[c][k] : c \in 1..Len(slots), k \in 1..K } \ {-1}
MergeFailures(slots, merged) ==
    LET n == Len(merged) IN
        (IF \A i \in 1..n : FoundBy(slots, merged[i][1]) # {} /\ merged[i][1] # -1 THEN {} ELSE {"found-by-no-camera"})
        \cup (IF \A i, j \in 1..n : i # j => merged[i][1] # merged[j][1] THEN {} ELSE {"merged-twice"})
        \cup (IF \A p \in Particles(slots) : Cardinality(FoundBy(slots, p)) >= 2 =>
                 \E i \in 1..n : merged[i][1] = p THEN {} ELSE {"lost"})
        \cup (IF \A i \in 1..n : merged[i][2] = Cardinality(FoundBy(slots, merged[i][1])) THEN {} ELSE {"count"})
        \cup (IF \A i \in 1..n : { c \in 1..Len(slots) : merged[i][3][c] = 1 } = FoundBy(slots, merged[i][1])
              THEN {} ELSE {"cameras"})
        \cup (IF \A i \in 1..(n - 1) : merged[i][2] >= merged[i + 1][2] THEN {} ELSE {"order"})
=============================================================================
