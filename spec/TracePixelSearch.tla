-------------------------- MODULE TracePixelSearch --------------------------
(* Decides recorded window searches and merges.                                *)
(* kind "near": the nearest linked targets, r.got indices from 0 (-1 unused)   *)
(* kind "rest": the nearest unlinked target, r.got and r.count                 *)
(* kind "reg":  registration, r.got = << particle, cameras >> per slot         *)
(* kind "merge": r.slots, r.merged, r.count                                    *)
(* kind "long": every single target of a long list must be found               *)
EXTENDS PixelSearch, Records

Used(got) == SelectSeq(got, LAMBDA x : x # -1)
From1(got) == [i \in 1..Len(got) |-> got[i] + 1]
SearchFailures(c, raw, k, linked) ==
    LET got == From1(Used(raw))
        fit == Fitting(c, linked)
        valid == OnlyFitting(fit, got)
    IN  (IF valid THEN {} ELSE {"target-not-in-window"})
        \cup (IF NoDuplicates(got) THEN {} ELSE {"found-twice"})
        \cup (IF valid => NearestFirst(c, got) THEN {} ELSE {"not-nearest-first"})
        \cup (IF valid => NoNearerLeftOut(c, fit, got, k) THEN {} ELSE {"nearer-target-left-out"})
        \cup (IF \A i \in 1..Len(got) : raw[i] = got[i] - 1 THEN {} ELSE {"gap"})
        \cup (IF Len(raw) = k THEN {} ELSE {"slots"})

RegFailures(r) ==
    LET c == r.c
        tn(i) == c.pts[i][3]
        fit == Fitting(c, TRUE)
        named == { r.got[k][1] : k \in 1..Len(r.got) } \ {-1}
    IN  (IF \A p \in named : \E i \in fit : tn(i) = p THEN {} ELSE {"target-not-in-window"})
        \cup (IF Cardinality(fit) <= K => \A i \in fit : tn(i) \in named THEN {} ELSE {"nearer-target-left-out"})
        \cup (IF Cardinality(named) >= (IF Cardinality(fit) <= K THEN Cardinality(fit) ELSE K)
              THEN {} ELSE {"nearer-target-left-out"})
        \cup (IF \A k \in 1..Len(r.got) : r.got[k][2] = (IF r.got[k][1] = -1 THEN {} ELSE {r.cam})
              THEN {} ELSE {"camera-mark"})

(* kind "volume": windows of all cameras searched and merged.  The candidates  *)
(* end before the first entry whose particle is -1.                            *)
NearestK(c) ==
    LET fit == Fitting(c, TRUE)
        k == IF Cardinality(fit) < K THEN Cardinality(fit) ELSE K
        rank(i) == Cardinality({ j \in fit : Dist2(c, c.pts[j]) < Dist2(c, c.pts[i]) })
    IN [s \in 1..K |-> IF s <= k THEN c.pts[CHOOSE i \in fit : rank(i) = s - 1][3] ELSE -1]
RECURSIVE UntilEnd(_, _)
UntilEnd(q, k) == IF k > Len(q) \/ q[k][1] = -1 THEN k - 1 ELSE UntilEnd(q, k + 1)
VolumeFailures(r) ==
    LET slots == [i \in 1..Len(r.cs) |-> NearestK(r.cs[i])]
        n == UntilEnd(r.got, 1)
    IN MergeFailures(slots, SubSeq(r.got, 1, n))
       \cup (IF \A i \in (n + 1)..Len(r.got) : r.got[i][1] = -1 THEN {} ELSE {"end-mark"})

LongFailures(r) == IF r.other > 0 THEN {"target-not-in-window"}
                   ELSE IF r.num = 0 \/ r.found = << <<0, r.num - 1>> >> THEN {} ELSE {"nearer-target-left-out"}

Failures(r) ==
    IF r.err # "" THEN {"failed"}
    ELSE (IF r.unchanged THEN {} ELSE {"arguments-changed"}) \cup
    (CASE r.kind = "near" -> SearchFailures(r.c, r.got, K, TRUE)
     [] r.kind = "rest" -> SearchFailures(r.c, r.got, 1, FALSE)
                           \cup (IF r.count = Len(Used(r.got)) THEN {} ELSE {"counter"})
     [] r.kind = "reg" -> RegFailures([r EXCEPT !.got = [k \in 1..Len(r.got) |->
                             << r.got[k][1], { r.got[k][2][i] : i \in 1..Len(r.got[k][2]) } >>]])
     [] r.kind = "merge" -> MergeFailures(r.slots, r.merged)
                            \cup (IF r.count = Len(r.merged) THEN {} ELSE {"number-merged"})
     [] r.kind = "volume" -> VolumeFailures(r)
     [] r.kind = "long" -> LongFailures(r))
Inv == Report(Failures(Recs[pos]))
=============================================================================
