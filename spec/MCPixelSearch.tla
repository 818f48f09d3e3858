---------------------------- MODULE MCPixelSearch ----------------------------
(* (a) The window search as a state machine: targets are visited in y order    *)
(* and inserted into a short list of the K nearest.  Every run ends in a legal *)
(* answer.  (b) Merging the cameras' slots one by one, in any order, and       *)
(* ordering the result gives a legal merge.                                    *)
EXTENDS PixelSearch, TLC
CONSTANTS Mode, Coord, MaxPts, NCams, Parts
VARIABLES c, j, near, slots, todo, merged
vars == <<c, j, near, slots, todo, merged>>

SortedY(s) == \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][2]
InitSearch == /\ \E m \in 0..MaxPts : \E p \in [1..m -> Coord \X Coord \X {-1, 0}], cx, cy \in {0, 2},
                    dl, du \in {1, 3} :
                    /\ SortedY(p)
                    /\ c = [pts |-> p, cx |-> cx, cy |-> cy, dl |-> dl, dr |-> 3, du |-> du, dd |-> 2, w |-> 4, h |-> 4]
              /\ j = 1 /\ near = <<>> /\ slots = <<>> /\ todo = {} /\ merged = <<>>
Insert(lst, x) ==          \* before the first that is farther away, kept to K
    LET k == IF \E i \in 1..Len(lst) : Dist2(c, c.pts[lst[i]]) > Dist2(c, c.pts[x])
             THEN Min({ i \in 1..Len(lst) : Dist2(c, c.pts[lst[i]]) > Dist2(c, c.pts[x]) }) ELSE Len(lst) + 1
        new == SubSeq(lst, 1, k - 1) \o <<x>> \o SubSeq(lst, k, Len(lst))
    IN IF Len(new) > K THEN SubSeq(new, 1, K) ELSE new
Visit == /\ Mode = "search" /\ CentreInImage(c) /\ j <= Len(c.pts)
         /\ near' = (IF Inside(c, c.pts[j]) /\ Linked(c.pts[j]) THEN Insert(near, j) ELSE near)
         /\ j' = j + 1 /\ UNCHANGED <<c, slots, todo, merged>>

InitMerge == /\ c = <<>> /\ j = 0 /\ near = <<>> /\ merged = <<>>
             /\ slots \in [1..NCams -> [1..K -> Parts \cup {-1}]]
             /\ todo = { <<a, k>> : a \in 1..NCams, k \in 1..K }
Count(m, cam) == [m EXCEPT ![2] = IF m[3][cam] = 1 THEN @ ELSE @ + 1, ![3] = [@ EXCEPT ![cam] = 1]]
MergeOne == /\ Mode = "merge" /\ todo # {}
            /\ LET sl == Min({ a[1] * 10 + a[2] : a \in todo })
                   a == CHOOSE b \in todo : b[1] * 10 + b[2] = sl
                   p == slots[a[1]][a[2]]
                   at == { i \in 1..Len(merged) : merged[i][1] = p } IN
               /\ todo' = todo \ {a}
               /\ merged' = IF p = -1 THEN merged
                            ELSE IF at = {} THEN Append(merged, Count(<<p, 0, [x \in 1..NCams |-> 0]>>, a[1]))
                            ELSE [merged EXCEPT ![Min(at)] = Count(@, a[1])]
            /\ UNCHANGED <<c, j, near, slots>>
Sort == /\ Mode = "merge" /\ todo = {}
        /\ merged' = SortSeq(merged, LAMBDA x, y : x[2] > y[2] \/ (x[2] = y[2] /\ x[1] < y[1]))
        /\ UNCHANGED <<c, j, near, slots, todo>>
Init == IF Mode = "search" THEN InitSearch ELSE InitMerge
Next == Visit \/ MergeOne \/ Sort
Spec == Init /\ [][Next]_vars

SearchLegal == Mode = "search" /\ (~CentreInImage(c) \/ j > Len(c.pts)) => Legal(c, near, K, TRUE)
OnceSorted == Mode = "merge" /\ todo = {} /\ (\A i \in 1..(Len(merged) - 1) : merged[i][2] >= merged[i + 1][2])
MergeLegal == OnceSorted => MergeFailures(slots, merged) = {}
=============================================================================
