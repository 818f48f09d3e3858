--------------------------- MODULE TraceCandidates ---------------------------
(* Decides recorded candidate searches: r.got is the sequence of               *)
(* << index from 0, distance in 1/1000, rating in 1/1000 >>.                   *)
EXTENDS EpiCandidates, Records

ListFailures(c, got) ==
    LET ng == Len(got)
        ids == [ i \in 1..ng |-> got[i][1] + 1 ]
        must == MustList(c)
        may == MaySet(c)
        gotset == { ids[i] : i \in 1..ng }
        nmust == Len(must)
    IN  (IF ng > MaxCand THEN {"too-many-candidates"} ELSE {})
        \cup (IF \A i \in 1..ng : ids[i] \in may THEN {} ELSE {"candidate-does-not-qualify"})
        \cup (IF \A i \in 1..(ng - 1) : ids[i] < ids[i + 1] THEN {} ELSE {"not-in-list-order"})
        \cup (IF ng >= MaxCand
              THEN IF \A i \in 1..nmust : must[i] > ids[ng] \/ must[i] \in gotset
                   THEN {} ELSE {"candidate-missing"}
              ELSE IF \A i \in 1..nmust : must[i] \in gotset THEN {} ELSE {"candidate-missing"})
        \cup (IF \A i \in 1..ng : ids[i] \in 1..Len(c.pts) => DistOk(c, c.pts[ids[i]], got[i][2])
              THEN {} ELSE {"distance"})
        \cup (IF \A i \in 1..ng : ids[i] \in 1..Len(c.pts) => RatingOk(c, c.pts[ids[i]], got[i][3])
              THEN {} ELSE {"rating"})

\* a search that must find each single target of a long list:
\* r.found holds the maximal runs << first, last >> of positions that were found
LongFailures(r) == IF r.num = 0 THEN (IF r.found = <<>> THEN {} ELSE {"candidate-does-not-qualify"})
                   ELSE IF r.found = << <<0, r.num - 1>> >> /\ r.other = 0 THEN {}
                   ELSE IF r.other > 0 THEN {"candidate-does-not-qualify"} ELSE {"candidate-missing"}

Failures(r) == IF r.err # "" THEN {"failed"}
               ELSE IF r.kind = "long" THEN LongFailures(r)
               ELSE ListFailures(r.c, r.got) \cup (IF r.unchanged THEN {} ELSE {"arguments-changed"})

Inv == Report(Failures(Recs[pos]))
=============================================================================
