---------------------------- MODULE EpiCandidates ----------------------------
(* Which targets of a camera are candidates along a line.                      *)
(*                                                                             *)
(* Everything is in integer length units.  A scene c holds                     *)
(*   pts   targets in x order, << x, y, n, nx, ny, sumg >>                     *)
(*   xa, ya, xb, yb   ends of the line;  eps  tolerance                        *)
(*   own   << n, nx, ny, sumg >> of the target that is searched for            *)
(*   lim   << cn, cnx, cny, csumg >> in 1/den;  den                            *)
(*   sx0, sx1, sy0, sy1   the sensor                                           *)
(*   slack  0 when all numbers are exact, otherwise the uncertainty of lengths *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Wide
CONSTANT MaxCand

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a

OffSensor(c) == \/ Hi(c.xa, c.xb) <= c.sx0 \/ Lo(c.xa, c.xb) >= c.sx1
                \/ Hi(c.ya, c.yb) <= c.sy0 \/ Lo(c.ya, c.yb) >= c.sy1
\* left open
MaybeOff(c) ==
    IF c.slack = 0
    THEN c.xa = c.xb /\ c.xa = c.sx0        \* an upright line along the edge of the sensor
    ELSE \/ Hi(c.xa, c.xb) <= c.sx0 + c.slack \/ Lo(c.xa, c.xb) >= c.sx1 - c.slack
         \/ Hi(c.ya, c.yb) <= c.sy0 + c.slack \/ Lo(c.ya, c.yb) >= c.sy1 - c.slack

\* within the end points widened by e
InWindow(c, t, e) == /\ t[1] > Lo(c.xa, c.xb) - e /\ t[1] < Hi(c.xa, c.xb) + e
                     /\ t[2] > Lo(c.ya, c.yb) - e /\ t[2] < Hi(c.ya, c.yb) + e
Cross(c, t) == Abs((c.xb - c.xa) * (t[2] - c.ya) - (c.yb - c.ya) * (t[1] - c.xa))
Len2(c) == (c.xb - c.xa) * (c.xb - c.xa) + (c.yb - c.ya) * (c.yb - c.ya)
\* a degenerate line is taken as horizontal
Closer(c, t, e) == IF e <= 0 THEN FALSE
                   ELSE IF Len2(c) = 0 THEN Abs(t[2] - c.ya) < e
                   ELSE ProdLess(Cross(c, t), Cross(c, t), e * e, Len2(c))
AtExactly(c, t, e) == Len2(c) # 0 /\ WMul(Cross(c, t), Cross(c, t)) = WMul(e * e, Len2(c))
\* an exact tie on a slanted or upright line is left open (rounding of the slope)
TieOpen(c, t) == c.ya # c.yb /\ AtExactly(c, t, c.eps)
\* an upright line has its upper end moved by a hair
EdgeOpen(c, t) == c.xa = c.xb /\ t[1] = c.xa + c.eps

\* smaller over larger value, none over none counts as unlike
RatioGeq(a, b, k, den) == IF a = 0 /\ b = 0 THEN k <= 0 ELSE den * Lo(a, b) >= k * Hi(a, b)
RatioGt(a, b, k, den) == IF a = 0 /\ b = 0 THEN k < 0 ELSE den * Lo(a, b) > k * Hi(a, b)
Similar(c, t) == /\ RatioGeq(c.own[1], t[3], c.lim[1], c.den)
                 /\ RatioGeq(c.own[2], t[4], c.lim[2], c.den)
                 /\ RatioGeq(c.own[3], t[5], c.lim[3], c.den)
                 /\ RatioGt(c.own[4], t[6], c.lim[4], c.den)

Must(c, t) == InWindow(c, t, c.eps - c.slack) /\ Closer(c, t, c.eps - c.slack) /\ Similar(c, t)
May(c, t) == \/ Must(c, t)
             \/ /\ Similar(c, t)
                /\ \/ c.slack > 0 /\ InWindow(c, t, c.eps + c.slack) /\ Closer(c, t, c.eps + c.slack)
                   \/ TieOpen(c, t)
                   \/ EdgeOpen(c, t)

\* indices (from 1) of the candidates, in list order
MustList(c) == IF OffSensor(c) \/ MaybeOff(c) THEN <<>>
               ELSE SelectSeq([i \in 1..Len(c.pts) |-> i], LAMBDA i : Must(c, c.pts[i]))
MaySet(c) == IF OffSensor(c) /\ ~MaybeOff(c) THEN {} ELSE { i \in 1..Len(c.pts) : May(c, c.pts[i]) }

\* rating in thousandths
RScale(c, t) == IF c.own[4] + t[6] <= 240 THEN 1000000 ELSE 10000
Ratio(a, b, s) == IF a = 0 /\ b = 0 THEN 0 ELSE (s * Lo(a, b)) \div Hi(a, b)
Rating(c, t) == LET s == RScale(c, t)
                    k == 4 * Ratio(c.own[4], t[6], s) + 2 * Ratio(c.own[1], t[3], s)
                         + Ratio(c.own[2], t[4], s) + Ratio(c.own[3], t[5], s)
                IN (k * (c.own[4] + t[6])) \div (s \div 1000)
RatingOk(c, t, got) == LET s == RScale(c, t)
                           tol == 3 + (9 * (c.own[4] + t[6])) \div (s \div 1000)
                       IN Abs(Rating(c, t) - got) <= tol

\* got: a distance in thousandths of a unit
DistOk(c, t, got) ==
    IF c.slack > 0
    THEN LET g == got \div 1000 IN
         /\ Closer(c, t, g + 2 + c.slack)
         /\ (g > c.slack + 1 => ~Closer(c, t, g - 1 - c.slack))
    ELSE IF Len2(c) = 0 THEN Abs(got - 1000 * Abs(t[2] - c.ya)) <= 1
    ELSE LET k == Cross(c, t) IN
         \* got-1 <= 1000 k / sqrt(len2) <= got+1
         /\ ProdLeq(1000000, k * k, (got + 1) * (got + 1), Len2(c))
         /\ (got > 1 => ProdLeq((got - 1) * (got - 1), Len2(c), 1000000, k * k))
         /\ (k = 0 => got <= 1)
=============================================================================
