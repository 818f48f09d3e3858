--------------------------- MODULE MCSegmentation ---------------------------
(* The detector as a state machine that scans the window and grows one spot    *)
(* pixel by pixel in any order; exhaustive over all small images.              *)
EXTENDS Segmentation, TLC
CONSTANTS W, H, Vals, Discos, Thr
VARIABLES c, scan, work, region, done, regions
vars == <<c, scan, work, region, done, regions>>

Inner == { p \in 0..(W * H - 1) : p % W \in 1..(W - 2) /\ p \div W \in 1..(H - 2) }
Init == /\ \E im \in [Inner -> Vals], d \in Discos :
              c = [ w |-> W, h |-> H, imx |-> W, imy |-> H, thr |-> Thr, disco |-> d,
                    x0 |-> 1, x1 |-> W - 1, y0 |-> 1, y1 |-> H - 1,
                    img |-> [ k \in 1..(W * H) |-> IF k - 1 \in Inner THEN im[k - 1] ELSE 0 ] ]
        /\ scan = 0 /\ work = {} /\ region = {} /\ done = {} /\ regions = <<>>

Seed == /\ work = {} /\ region = {} /\ scan < W * H
        /\ IsSeed(c, scan, done)
        /\ region' = {scan} /\ work' = {scan} /\ done' = done \cup {scan}
        /\ UNCHANGED <<c, scan, regions>>
Skip == /\ work = {} /\ region = {} /\ scan < W * H
        /\ ~IsSeed(c, scan, done)
        /\ scan' = scan + 1 /\ UNCHANGED <<c, work, region, done, regions>>
Grow(p) == LET new == { q \in N4(c, p) : CanJoin(c, p, q, done) } IN
           /\ p \in work
           /\ region' = region \cup new /\ done' = done \cup new
           /\ work' = (work \ {p}) \cup new
           /\ UNCHANGED <<c, scan, regions>>
Close == /\ work = {} /\ region # {}
         /\ regions' = Append(regions, region) /\ region' = {} /\ scan' = scan + 1
         /\ UNCHANGED <<c, work, done>>
Next == Seed \/ Skip \/ Close \/ \E p \in work : Grow(p)
Spec == Init /\ [][Next]_vars

RegionSet == { regions[i] : i \in 1..Len(regions) }
Disjoint == \A i, j \in 1..Len(regions) : i # j => regions[i] \cap regions[j] = {}
RECURSIVE Reach(_, _, _)
Reach(R, S, acc) == LET new == { q \in R \ acc : \E p \in S : q \in N4(c, p) } IN
                    IF new = {} THEN acc ELSE Reach(R, new, acc \cup new)
Connected == \A R \in RegionSet : LET p == Min(R) IN Reach(R, {p}, {p}) = R
Bright1 == \A R \in RegionSet : \A p \in R : Img(c, p) > c.thr /\ InWindow(c, p)
\* every order of growth gives the spots of the functional definition
RECURSIVE FinalRegions(_, _)
FinalRegions(todo, dn) ==
    IF todo = <<>> THEN <<>>
    ELSE IF IsSeed(c, Head(todo), dn)
         THEN LET R == Region(c, Head(todo), dn) IN <<R>> \o FinalRegions(Tail(todo), dn \cup R)
         ELSE FinalRegions(Tail(todo), dn)
OrderIndependent == scan = W * H => regions = FinalRegions(SetToSortSeq(Bright(c), <), {})
\* a local maximum of the image is in some spot when the scan is over
NothingMissed == scan = W * H =>
    \A p \in Bright(c) : (\A q \in N8(c, p) : Img(c, p) > Img(c, q)) => p \in done
Numbered == \A i, j \in 1..Len(regions) : i < j => regions[i] # regions[j]
=============================================================================
