------------------------------ MODULE Backtrack ------------------------------
(* Tracking backwards over the results of forward tracking.                    *)
(* A record r: per frame f (from 1): r.before[f], r.after[f] the links         *)
(* << previous, next >> of its particles; r.t[f] its targets per camera;       *)
(* r.geo[f]: what is known of the particles h that end up with a successor     *)
(* but had no predecessor: << h, window q, m, twin >>, where m[m] says what    *)
(* linking to particle m of the frame before means: d (displacement), acc,     *)
(* ang, dl (against the motion to the successor), and if m has a predecessor,  *)
(* ka, kn: acceleration and angle of its motion against that predecessor.      *)
EXTENDS Tracking

GeoOf(r, f, h) == { g \in ToSet(r.geo[f]) : g.h = h }
Boxes(r, f, g) == TLCEval([c \in 1..Len(r.t[f - 1]) |-> Box(r, r.t[f - 1][c], g.q[c])])
\* the candidates of a search, each << particle, number of cameras >>
Candidates(r, f, g) == LET b == Boxes(r, f, g) IN TLCEval(Cands(AllSlots(b, Search(b, TRUE))))
CandidatesUnsure(r, f, g) ==
    LET b == Boxes(r, f, g)
        rk == Search(b, TRUE)
    IN AnyUnsure(b, rk, TRUE) \/ HeadUnsure(b, rk, Cands(AllSlots(b, rk)))
InReach(r, D) == InLimits(r, D.d) /\ Smooth(D.acc, D.ang)
ReachUnsure(r, D) == LimitsUnsure(r, D.d) \/ SmoothUnsure(D.acc, D.ang)
Rated(r, f, g) == { << Rate(g.m[w[1] + 1].dl, g.m[w[1] + 1].acc, g.m[w[1] + 1].ang, w[2]), w[1] >> :
                    w \in { x \in ToSet(Candidates(r, f, g)) : InReach(r, g.m[x[1] + 1]) } }
\* m can be continued forwards to the particle: it has no predecessor or comes from a fitting direction
FitsBack(r, f, g, m) == r.before[f - 1][m + 1][1] = -1 \/ Smooth(g.m[m + 1].ka, g.m[m + 1].kn)
FitsUnsure(r, f, g, m) == r.before[f - 1][m + 1][1] # -1 /\ SmoothUnsure(g.m[m + 1].ka, g.m[m + 1].kn)
GapUnsure(r, f, g) == \/ CandidatesUnsure(r, f, g)
                      \/ \E w \in ToSet(Candidates(r, f, g)) : ReachUnsure(r, g.m[w[1] + 1])
                      \/ LET reg == Rated(r, f, g) IN reg # {} /\ BestUnsure(r, reg)
\* the link that closes a gap, among what is free
Wanted(r, f, g) == LET reg == Rated(r, f, g) IN
    IF reg = {} THEN -1 ELSE IF FitsBack(r, f, g, Best(reg)[2]) THEN Best(reg)[2] ELSE -1
=============================================================================
