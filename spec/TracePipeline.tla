---------------------------- MODULE TracePipeline ----------------------------
(* Scenes rendered as images and taken through all stages by the program, decided *)
(* by Pipeline: what was detected, matched, placed, kept in the files, followed.   *)
(* Pixels in thousandths, places in micrometres, numbers from 0 as in the files.   *)
EXTENDS Pipeline, Records

CONSTANTS PixelMargin, PlaceMargin, RayMargin

Abs(n) == IF n < 0 THEN -n ELSE n
Close(a, b, m) == \A i \in 1..Len(b) : Abs(a[i] - b[i]) <= m
Bad(name, P) == IF P THEN {name} ELSE {}
Ids(f) == 1..Len(f.true)
SeenBy(f, c) == { p \in Ids(f) : \E i \in 1..Len(f.true[p].seen) : f.true[p].seen[i] = c }
Count(f) == [p \in Ids(f) |-> Len(f.true[p].seen)]
Edges(f) == { f.edges[i] : i \in 1..Len(f.edges) }
\* detection
At(f, c, p) == { i \in 1..Len(f.targets[c]) : Close(f.targets[c][i], f.true[p].px[c], PixelMargin) }
Detected(r, f) == \A c \in 1..r.cams : \A p \in SeenBy(f, c) : At(f, c, p) # {}
Nothing(r, f) == \E c \in 1..r.cams : Len(f.targets[c]) > Cardinality(SeenBy(f, c))
                    \/ \E i \in 1..Len(f.targets[c]) : \A p \in SeenBy(f, c) : i \notin At(f, c, p)
DetectionFailures(r, f) == Bad("not-detected", ~ Detected(r, f)) \cup Bad("nothing-there", Nothing(r, f))
\* matching
Row(r, f, p) == [c \in 1..r.cams |-> IF p \in SeenBy(f, c) THEN (CHOOSE i \in At(f, c, p) : TRUE) - 1 ELSE -1]
Matched(f) == { p \in Ids(f) : Count(f)[p] >= 2 }
Of(r, f, k) == { p \in Matched(f) : Row(r, f, p) = f.rows[k] }
MatchFailures(r, f) ==
    LET rows == 1..Len(f.rows) IN
    Bad("not-matched", \E p \in Matched(f) : \A k \in rows : f.rows[k] # Row(r, f, p))
    \cup Bad("false-match", (\E k \in rows : Of(r, f, k) = {}) \/ \E k \in rows, l \in rows : k < l /\ f.rows[k] = f.rows[l])
    \cup Bad("numbers", f.num # Len(f.rows) \/ \E c \in 1..r.cams : \E i \in 1..Len(f.targets[c]) :
                LET k == { l \in rows : f.rows[l][c] = i - 1 } IN
                IF k = {} THEN f.targets[c][i][3] # -1 ELSE f.targets[c][i][3] + 1 \notin k)
    \cup Bad("misplaced", \E k \in rows : \E p \in Of(r, f, k) : ~ Close(f.place[k], f.true[p].x, PlaceMargin))
    \cup Bad("imprecise", \E k \in rows : Of(r, f, k) # {} /\ ~ Close(f.place[k], f.ref[k], RayMargin))
\* the files after tracking
KeptFailures(r, f) ==
    LET n == Len(f.rows) kept == f.kept IN
    Bad("added", Len(kept.rows) > n)
    \cup Bad("not-kept", \/ Len(kept.rows) < n \/ Len(kept.place) < n
                         \/ \E k \in 1..n : kept.rows[k] # f.rows[k] \/ ~ Close(kept.place[k], f.place[k], 1)
                         \/ \E c \in 1..r.cams : \/ Len(kept.targets[c]) # Len(f.targets[c])
                                                 \/ \E i \in 1..Len(f.targets[c]) : ~ Close(kept.targets[c][i], f.targets[c][i], 1) \/ kept.targets[c][i][3] # f.targets[c][i][3])
FrameFailures(r, f) ==
    LET d == DetectionFailures(r, f) IN
    IF d # {} THEN d ELSE
    LET m == MatchFailures(r, f) IN IF m # {} THEN m ELSE KeptFailures(r, f)
\* following (only in frames that are right so far)
Links(r, t) == r.frames[t].kept.links
RowOf(r, t, p) == CHOOSE k \in 1..Len(r.frames[t].rows) : p \in Of(r, r.frames[t], k)
Who(r, t, k) == IF k \in 1..Len(r.frames[t].rows) THEN CHOOSE p \in Of(r, r.frames[t], k) : TRUE ELSE 0
There(r, p) == [t \in 1..Len(r.frames) |-> p \in Matched(r.frames[t])]
StrayFailures(r) ==
    LET n == Len(r.frames) IN
    Bad("wrong-trajectory", \E t \in 1..n : \E k \in 1..Len(Links(r, t)) :
            LET l == Links(r, t)[k] IN
            \/ l[2] >= 0 /\ (t = n \/ Who(r, t + 1, l[2] + 1) # Who(r, t, k))
            \/ l[1] >= 0 /\ (t = 1 \/ Who(r, t - 1, l[1] + 1) # Who(r, t, k)))
LinkFailures(r) ==
    LET n == Len(r.frames) IN
    Bad("lost", \E p \in Ids(r.frames[1]) : \E t \in 1..(n - 1) :
            Must(There(r, p), t) /\ Links(r, t)[RowOf(r, t, p)][2] # RowOf(r, t + 1, p) - 1)
    \cup Bad("not-mutual", \E t \in 1..(n - 1) :
            \/ \E k \in 1..Len(Links(r, t)) : Links(r, t)[k][2] >= 0 /\ Links(r, t + 1)[Links(r, t)[k][2] + 1][1] # k - 1
            \/ \E k \in 1..Len(Links(r, t + 1)) : Links(r, t + 1)[k][1] >= 0 /\ Links(r, t)[Links(r, t + 1)[k][1] + 1][2] # k - 1)
Failures(r) ==
    IF r.err # "" THEN {"failed"}
    ELSE IF \E t \in 1..Len(r.frames) : ~ Unambiguous(Edges(r.frames[t]), Count(r.frames[t])) THEN {"unsound"}
    ELSE LET a == UNION { FrameFailures(r, r.frames[t]) : t \in 1..Len(r.frames) } IN
         IF a # {} THEN a ELSE
         LET w == StrayFailures(r) IN IF w # {} THEN w ELSE LinkFailures(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
