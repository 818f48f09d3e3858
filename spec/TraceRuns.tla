------------------------------ MODULE TraceRuns ------------------------------
(* Decides recorded forward runs by the files they leave behind.               *)
(* r.first, r.last, r.written: the frames in the order in which their results  *)
(* were written; r.strays: other files written.  Per frame of the range:       *)
(* r.start: particles << x, y, z, targets >> read, r.files those written,      *)
(* r.links: << previous, next, x, y, z >> written, r.memory: << previous,      *)
(* next, x, y, z, targets >> as tracking left them in memory.                  *)
EXTENDS Records

At(r, f) == f - r.first + 1
Frames(r) == r.first..r.last
Times(r, f) == Cardinality({ i \in 1..Len(r.written) : r.written[i] = f })
Begins(s, t) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
MutualFiles(r) == \A f \in Frames(r) : LET L == r.links[At(r, f)] IN
    \A i \in 1..Len(L) :
        /\ L[i][2] # -2 => /\ f < r.last
                           /\ L[i][2] + 1 \in 1..Len(r.links[At(r, f) + 1])
                           /\ r.links[At(r, f) + 1][L[i][2] + 1][1] = i - 1
        /\ L[i][1] # -1 => /\ f > r.first
                           /\ L[i][1] + 1 \in 1..Len(r.links[At(r, f) - 1])
                           /\ r.links[At(r, f) - 1][L[i][1] + 1][2] = i - 1
Close(a, b) == a - b <= 1 /\ b - a <= 1
SameAsMemory(r) == \A f \in Frames(r) :
    LET M == r.memory[At(r, f)]
        L == r.links[At(r, f)]
        P == r.files[At(r, f)]
    IN /\ Len(M) = Len(L) /\ Len(M) = Len(P)
       /\ \A i \in 1..Len(M) : /\ M[i][1] = L[i][1] /\ M[i][2] = L[i][2]
                               /\ \A a \in 1..3 : Close(M[i][a + 2], L[i][a + 2]) /\ Close(M[i][a + 2], P[i][a])
                               /\ SubSeq(M[i], 6, 9) = SubSeq(P[i], 4, 7)
Failures(r) ==
    IF r.err # "" THEN {"failed"}
    ELSE (IF \A f \in Frames(r) : Times(r, f) = 1 THEN {} ELSE {"frame-not-written-once"})
         \cup (IF (\A i \in 1..Len(r.written) : r.written[i] \in Frames(r)) /\ r.strays = <<>>
               THEN {} ELSE {"other-frame-written"})
         \cup (IF \A f \in Frames(r) : Begins(r.start[At(r, f)], r.files[At(r, f)]) THEN {} ELSE {"wrong-particles"})
         \cup (IF MutualFiles(r) THEN {} ELSE {"files-not-mutual"})
         \cup (IF SameAsMemory(r) THEN {} ELSE {"files-differ-from-memory"})
Inv == Report(Failures(Recs[pos]))
=============================================================================
