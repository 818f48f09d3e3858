-------------------------- MODULE TraceTriangulation --------------------------
(* Decides recorded positions.  Every record but "skew" has several ways in which *)
(* the same points were asked for (together, one by one, with the cameras or the   *)
(* points in another order); all have to give the specified positions.             *)
EXTENDS Triangulation, Records, Wide
CONSTANTS TolPos, TolRef
S == 100000
None == 2000000000
Bad(b, name) == IF b THEN {} ELSE {name}
SeenBy(l) == {i \in 1..Len(l) : l[i] = 1}
ScaledVec(v, m, s) == [i \in 1..Len(v) |-> Scaled(v[i], m, s)]
(* the distance d (thousandths) is Away / sqrt(Den)                                 *)
Distance(d, a, b) == LET w == Sq(Away(a, b))  n == Den(a, b)
    IN d >= 0 /\ d < 30000 /\ ProdLeq(Sq(IF d > 2 THEN d - 2 ELSE 0), n, w, 1000000) /\ ProdLeq(w, 1000000, Sq(d + 2), n)
(* the same, by its square root, for sums                                           *)
Far1000(a, b) == Root(Scaled(Sq(Away(a, b)), Den(a, b), 1000000))

RECURSIVE SumMids(_, _), SumFar(_, _)
SumMids(rays, ps) == IF ps = {} THEN <<0, 0, 0>>
    ELSE LET p == CHOOSE q \in ps : TRUE IN Plus(ScaledVec(MidSum(rays[p[1]], rays[p[2]]), 2 * Den(rays[p[1]], rays[p[2]]), S), SumMids(rays, ps \ {p}))
SumFar(rays, ps) == IF ps = {} THEN 0
    ELSE LET p == CHOOSE q \in ps : TRUE IN Far1000(rays[p[1]], rays[p[2]]) + SumFar(rays, ps \ {p})

NonePos(w, k) == w.pos[k] = <<None, None, None>> /\ w.rcm[k] = None
PerPoint(r, w, k, ok(_, _)) ==
    LET sn == SeenBy(r.seen[k]) IN
    IF NoPosition(sn) THEN Bad(NonePos(w, k), "position-without-two-cameras")
    ELSE Bad(ok(w, k), "position-of-" \o w.way)
Lattice1(r, w, k) ==
    LET sn == SeenBy(r.seen[k])
        ps == Pairs(sn)
        n == Cardinality(ps)
        m == SumMids(r.rays[k], ps)
        f == SumFar(r.rays[k], ps)
    IN IF NoPosition(sn) THEN Bad(NonePos(w, k), "position-without-two-cameras")
       ELSE Bad(\A i \in 1..3 : Close(w.pos[k][i], m[i] \div n, TolPos + 2), "position-of-" \o w.way)
            \cup Bad(Close(w.rcm[k], f \div n, 4), "convergence-of-" \o w.way)
Meeting1(r, w) ==
    IF NoPosition(SeenBy(r.seen)) THEN Bad(NonePos(w, 1), "position-without-two-cameras")
    ELSE Bad(CloseVec(w.pos[1], Times(S, r.point), TolRef), "position-of-" \o w.way) \cup Bad(w.rcm[1] <= 1, "convergence-of-" \o w.way)
General1(r, w, k) ==
    IF NoPosition(SeenBy(r.seen[k])) THEN Bad(NonePos(w, k), "position-without-two-cameras")
    ELSE Bad(CloseVec(w.pos[k], r.refpos[k], TolRef), "position-of-" \o w.way) \cup Bad(Close(w.rcm[k], r.refrcm[k], 2), "convergence-of-" \o w.way)

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
(* the measure of a dumbbell: mean convergence, and how far off the length is       *)
Misfit(a, l) == LET b == 1000 * l IN 10000 - Scaled(MinI(a, b), MaxI(a, b), 10000)
Dumbbell(r, d) ==
    LET n == Len(r.refrcm)
        e == [i \in 1..Len(d.apart) |-> Misfit(d.apart[i], d.length)]
        v == ((10 * SumSeq(r.refrcm, 1)) \div n) + ((d.weight * SumSeq(e, 1)) \div (2 * n))
    IN Bad(Close(d.value, v, 30), "dumbbell-measure")
All(S1) == UNION S1
Failures(r) ==
    IF r.err # "" THEN {"raises"}
    ELSE IF r.t = "skew" THEN Bad(Distance(r.dist, r.a, r.b), "distance-of-two-rays")
                              \cup Bad(CloseVec(r.mid, ScaledVec(MidSum(r.a, r.b), 2 * Den(r.a, r.b), S), TolPos), "midpoint-of-two-rays")
    ELSE IF r.t = "lattice" THEN All({Lattice1(r, r.ways[w], k) : w \in 1..Len(r.ways), k \in 1..Len(r.seen)})
    ELSE IF r.t = "meeting" THEN All({Meeting1(r, r.ways[w]) : w \in 1..Len(r.ways)})
    ELSE All({General1(r, r.ways[w], k) : w \in 1..Len(r.ways), k \in 1..Len(r.seen)})
         \cup All({Dumbbell(r, r.dumb[i]) : i \in 1..Len(r.dumb)})
Inv == Report(Failures(Recs[pos]))
=============================================================================
