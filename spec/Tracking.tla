------------------------------- MODULE Tracking -------------------------------
(* One step of forward tracking.                                               *)
(*                                                                             *)
(* A step r links the particles of the current frame (h) to those of the next  *)
(* frame (m), looking ahead at the frame after it (k).  Particle numbers count *)
(* from 0.  Geometry enters through numbers that the record supplies:          *)
(*   pixels in 1/256 px, lengths in 1/10000 mm, and displacement, acceleration  *)
(*   and turning angle relative to their limits, in millionths.                *)
(* r.add, r.last     adding switched on, there is no frame to look ahead to    *)
(* r.lim, r.vol      limits of the displacement and the volume, per axis       *)
(* r.t2, r.t3        targets << x, y, particle >> per camera before the step   *)
(* r.n2, r.n3        number of particles of the two frames before the step     *)
(* r.add2, r.add3    the targets of each particle that the step has added      *)
(* r.part[h]         prev: has a predecessor; twin: class of equal particles;  *)
(*    q[cam] = << cx, cy, dl, dr, du, dd >> the search window;                 *)
(*    m[m]: what linking to particle m means: d (displacement), acc, ang, dl   *)
(*       (against the motion so far), q the window for its continuation,       *)
(*       k[k]: continuing to particle k: d, acc, ang, dl                       *)
(*       new: continuing to a new particle made from the targets t             *)
(*    lost: linking to a new particle made from the targets t                  *)
EXTENDS PixelSearch, TLC
CONSTANTS LenMargin, RelMargin, AddPart, MinCams

One == 1000000
Close(a, b, m) == LET d == a - b IN d <= m /\ d >= -m
Abs(a) == IF a < 0 THEN -a ELSE a

\* ------------------------------------------------------------- searching
Box(r, t, q) == [pts |-> t, cx |-> q[1], cy |-> q[2], dl |-> q[3], dr |-> q[4], du |-> q[5], dd |-> q[6],
                 w |-> r.w, h |-> r.h, pm |-> r.pm]
AddBox(r, t, q) == [pts |-> t, cx |-> q[1], cy |-> q[2], dl |-> AddPart, dr |-> AddPart, du |-> AddPart,
                    dd |-> AddPart, w |-> r.w, h |-> r.h, pm |-> r.pm]
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
\* target t is too near a border of the window to be decided
OnEdge(c, t) ==
    LET xl == Larger(c.cx - c.dl, 0)
        xr == Smaller(c.cx + c.dr, c.w)
        yu == Larger(c.cy - c.du, 0)
        yd == Smaller(c.cy + c.dd, c.h)
        g == c.pm
        outer == t[1] > xl - g /\ t[1] < xr + g /\ t[2] > yu - g /\ t[2] < yd + g
        inner == t[1] > xl + g /\ t[1] < xr - g /\ t[2] > yu + g /\ t[2] < yd - g
    IN outer /\ ~inner
CentreUnsure(c) == c.pm > 0 /\ (Close(c.cx, 0, c.pm) \/ Close(c.cx, c.w, c.pm)
                                     \/ Close(c.cy, 0, c.pm) \/ Close(c.cy, c.h, c.pm))
Slop(c, t) == IF c.pm = 0 THEN -1 ELSE 2 * c.pm * (Abs(t[1] - c.cx) + Abs(t[2] - c.cy) + c.pm)
SamePlace(s, t) == s[1] = t[1] /\ s[2] = t[2]
\* the fitting targets as << distance squared, index >>, nearest first, the earlier of equally near ones first
Ranked(c, linked) ==
    LET fit == TLCEval({ << Dist2(c, c.pts[i]), i >> : i \in Fitting(c, linked) })
        Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
    IN TLCEval(SetToSortSeq(fit, Before))
\* two neighbours in a ranking whose order is not certain
Tied(c, s, i, j) == /\ ~SamePlace(c.pts[s[i][2]], c.pts[s[j][2]])
                    /\ s[j][1] - s[i][1] <= Slop(c, c.pts[s[i][2]])
AnyTie(c, s) == \E i \in 1..Len(s) - 1 : Tied(c, s, i, i + 1)
\* the first n are not certain
CutUnsure(c, s, n) == Len(s) > n /\ \E i \in 1..n, j \in (n + 1)..Len(s) : Tied(c, s, i, j)
SearchUnsure(c, s, linked) ==
    \/ CentreUnsure(c)
    \/ c.pm > 0 /\ \E i \in 1..Len(c.pts) : Linked(c.pts[i]) = linked /\ OnEdge(c, c.pts[i])
    \/ CutUnsure(c, s, IF linked THEN K ELSE 1)
SlotsOf(c, s) == [i \in 1..K |-> IF i <= Len(s) THEN c.pts[s[i][2]][3] ELSE -1]
\* a search in all cameras: the boxes, their rankings
Search(boxes, linked) == TLCEval([c \in 1..Len(boxes) |-> Ranked(boxes[c], linked)])
AllSlots(boxes, rk) == TLCEval([c \in 1..Len(boxes) |-> SlotsOf(boxes[c], rk[c])])
AnyUnsure(boxes, rk, linked) == \E c \in 1..Len(boxes) : SearchUnsure(boxes[c], rk[c], linked)
AnyTies(boxes, rk) == \E c \in 1..Len(boxes) : AnyTie(boxes[c], rk[c])
\* candidates << particle, number of cameras >>: seen by two cameras, or the first of all
RECURSIVE Firsts(_, _, _)
Firsts(s, i, acc) == IF i > Len(s) THEN acc
                     ELSE Firsts(s, i + 1, IF s[i] = -1 \/ s[i] \in ToSet(acc) THEN acc ELSE Append(acc, s[i]))
Cands(slots) ==
    LET names == Firsts(FlattenSeq(slots), 1, <<>>)
        all == TLCEval([i \in 1..Len(names) |-> << names[i], Cardinality(FoundBy(slots, names[i])) >>])
        by(n) == SelectSeq(all, LAMBDA x : x[2] = n)
        two == by(4) \o by(3) \o by(2)
    IN IF all = <<>> THEN <<>> ELSE IF two = <<>> THEN << Head(all) >> ELSE two
\* which one is the first is not decided
HeadUnsure(boxes, rk, w) == w # <<>> /\ w[1][2] = 1 /\ AnyTies(boxes, rk)
\* the nearest unused target of every camera, -1 for none
Unused(rk) == [c \in 1..Len(rk) |-> IF rk[c] = <<>> THEN -1 ELSE rk[c][1][2] - 1]
Seen(t) == Cardinality({ i \in 1..Len(t) : t[i] # -1 })

\* ---------------------------------------------------------- motion limits
InLimits(r, d) == \A a \in 1..3 : d[a] > r.lim[2 * a - 1] /\ d[a] < r.lim[2 * a]
LimitsUnsure(r, d) == LenMargin > 0 /\ \E b \in 1..6 : Close(d[(b + 1) \div 2], r.lim[b], LenMargin)
InVolume(r, x) == \A a \in 1..3 : x[a] > r.vol[2 * a - 1] /\ x[a] < r.vol[2 * a]
VolumeUnsure(r, x) == LenMargin > 0 /\ \E b \in 1..6 : Close(x[(b + 1) \div 2], r.vol[b], LenMargin)
Smooth(acc, ang) == (acc < One /\ ang < One) \/ acc < One \div 10
SmoothUnsure(acc, ang) == RelMargin > 0 /\ (Close(acc, One, RelMargin) \/ Close(ang, One, RelMargin)
                                            \/ Close(acc, One \div 10, RelMargin))
Rate(dl, acc, ang, n) == (dl + acc + ang) \div n

\* ------------------------------------------------------------------ a step
Use(t, new, p) == [c \in 1..Len(t) |-> IF new[c] = -1 THEN t[c] ELSE [t[c] EXCEPT ![new[c] + 1][3] = p]]
Lookup(list, t) == { e \in ToSet(list) : e.t = t }

\* continuing over particle m (found by f cameras) of the next frame
OverCandidate(r, st, h, f, m) ==
    LET P == r.part[h]
        D == P.m[m + 1]
        boxes == IF r.last THEN <<>> ELSE TLCEval([c \in 1..Len(st.t3) |-> Box(r, st.t3[c], D.q[c])])
        rk == Search(boxes, TRUE)
        wn == IF r.last THEN <<>> ELSE TLCEval(Cands(AllSlots(boxes, rk)))
        acc(E) == IF P.prev THEN (D.acc + E.acc) \div 2 ELSE E.acc
        ang(E) == IF P.prev THEN (D.ang + E.ang) \div 2 ELSE E.ang
        ok(i) == LET E == D.k[wn[i][1] + 1] IN InLimits(r, E.d) /\ Smooth(acc(E), ang(E))
        rate(i) == LET E == D.k[wn[i][1] + 1] IN Rate(E.dl, acc(E), ang(E), f + wn[i][2])
        over == { i \in 1..Len(wn) : ok(i) }
        sureless == \/ AnyUnsure(boxes, rk, TRUE)
                    \/ HeadUnsure(boxes, rk, wn)
                    \/ \E i \in 1..Len(wn) : LET E == D.k[wn[i][1] + 1] IN
                          LimitsUnsure(r, E.d) \/ (InLimits(r, E.d) /\ SmoothUnsure(acc(E), ang(E)))
        \* a new particle in the frame ahead
        free == TLCEval([c \in 1..Len(boxes) |-> AddBox(r, st.t3[c], D.q[c])])
        frk == Search(free, FALSE)
        t == TLCEval(Unused(frk))
        made == ~r.last /\ Seen(t) >= MinCams
        N == CHOOSE e \in Lookup(D.new, t) : TRUE
        known == ~made \/ Lookup(D.new, t) # {}
        okNew == made /\ known /\ InVolume(r, N.x) /\ InLimits(r, N.d) /\ Smooth(N.acc, N.ang)
        newless == \/ AnyUnsure(free, frk, FALSE)
                   \/ made /\ known /\ (VolumeUnsure(r, N.x) \/ LimitsUnsure(r, N.d) \/ SmoothUnsure(N.acc, N.ang))
        add == okNew /\ r.add
        nth == st.n3 - r.n3 + 1
        addOk == ~add \/ (nth <= Len(r.add3) /\ r.add3[nth] = t)
        \* linking because of the motion so far
        prevOk == P.prev /\ InLimits(r, D.d) /\ Smooth(D.acc, D.ang)
        prevless == P.prev /\ (LimitsUnsure(r, D.d) \/ SmoothUnsure(D.acc, D.ang))
        regs == { << rate(i), m >> : i \in over } \cup (IF okNew THEN { << Rate(N.dl, N.acc, N.ang, f + Seen(t)), m >> } ELSE {})
        reg2 == st.reg[h] \cup regs
        reg3 == IF reg2 = {} /\ prevOk THEN { << Rate(D.dl, D.acc, D.ang, f), m >> } ELSE reg2
    IN [st EXCEPT !.reg[h] = reg3,
                  !.oth[h] = @ \cup { rate(i) : i \in 1..Len(wn) }
                               \cup (IF made /\ known THEN { Rate(N.dl, N.acc, N.ang, f + Seen(t)) } ELSE {})
                               \cup (IF P.prev THEN { Rate(D.dl, D.acc, D.ang, f) } ELSE {}),
                  !.unsure = @ \/ sureless \/ newless \/ prevless \/ ~known,
                  !.fail = IF addOk THEN @ ELSE @ \cup {"added-ahead"},
                  !.n3 = IF add THEN @ + 1 ELSE @,
                  !.t3 = IF add THEN Use(@, t, st.n3) ELSE @,
                  !.ev = @ \cup { << f, m, regs # {}, prevOk, add >> }]

RECURSIVE OverCandidates(_, _, _, _, _)
OverCandidates(r, st, h, w, i) ==
    IF i > Len(w) \/ st.fail # {} \/ st.unsure THEN st
    ELSE OverCandidates(r, OverCandidate(r, st, h, w[i][2], w[i][1]), h, w, i + 1)

\* the order of candidates seen by equally many cameras would make a difference
OrderMatters(ev) ==
    \E a, b \in ev : a[2] # b[2] /\ a[1] = b[1] /\ (a[5] \/ (~a[3] /\ a[4] /\ (b[3] \/ b[4])))

\* no candidate will do: a new particle at the predicted position
Replace(r, st, h) ==
    LET P == r.part[h]
        free == TLCEval([c \in 1..Len(st.t2) |-> AddBox(r, st.t2[c], P.q[c])])
        frk == Search(free, FALSE)
        t == TLCEval(Unused(frk))
        made == Seen(t) >= MinCams
        N == CHOOSE e \in Lookup(P.lost, t) : TRUE
        known == ~made \/ Lookup(P.lost, t) # {}
        ok == made /\ known /\ InVolume(r, N.x) /\ InLimits(r, N.d) /\ Smooth(N.acc, N.ang)
        sureless == \/ AnyUnsure(free, frk, FALSE)
                    \/ made /\ known /\ (VolumeUnsure(r, N.x) \/ LimitsUnsure(r, N.d) \/ SmoothUnsure(N.acc, N.ang))
        nth == st.n2 - r.n2 + 1
        addOk == ~ok \/ (nth <= Len(r.add2) /\ r.add2[nth] = t)
    IN IF ~r.add \/ st.reg[h] # {} \/ ~P.prev \/ st.fail # {} THEN st
       ELSE [st EXCEPT !.unsure = @ \/ sureless \/ ~known,
                       !.fail = IF addOk THEN @ ELSE @ \cup {"added-next"},
                       !.reg[h] = IF ok THEN { << Rate(N.dl, N.acc, N.ang, Seen(t)), st.n2 >> } ELSE @,
                       !.oth[h] = IF made /\ known THEN @ \cup { Rate(N.dl, N.acc, N.ang, Seen(t)) } ELSE @,
                       !.n2 = IF ok THEN @ + 1 ELSE @,
                       !.t2 = IF ok THEN Use(@, t, st.n2) ELSE @]

Particle(r, st, h) ==
    LET boxes == TLCEval([c \in 1..Len(st.t2) |-> Box(r, st.t2[c], r.part[h].q[c])])
        rk == Search(boxes, TRUE)
        w == TLCEval(Cands(AllSlots(boxes, rk)))
        st1 == [st EXCEPT !.unsure = @ \/ HeadUnsure(boxes, rk, w) \/ AnyUnsure(boxes, rk, TRUE), !.ev = {}]
        st2 == TLCEval(OverCandidates(r, st1, h, w, 1))
        st3 == [st2 EXCEPT !.unsure = @ \/ (OrderMatters(st2.ev) /\ AnyTies(boxes, rk))]
    IN IF w = <<>> \/ st1.unsure THEN st1 ELSE Replace(r, st3, h)

\* st.bad: particles that are not decided; where particles are added, nor are those after them
RECURSIVE AllParticles(_, _, _)
AllParticles(r, st, h) ==
    IF h > Len(r.part) \/ st.fail # {} THEN st
    ELSE IF st.bad # {} /\ r.add THEN [st EXCEPT !.bad = @ \cup h..Len(r.part)]
    ELSE LET new == TLCEval(Particle(r, st, h)) IN
         AllParticles(r, IF new.unsure THEN [st EXCEPT !.bad = @ \cup {h}] ELSE new, h + 1)
Start(r) == [t2 |-> r.t2, t3 |-> r.t3, n2 |-> r.n2, n3 |-> r.n3, fail |-> {}, unsure |-> FALSE, ev |-> {}, bad |-> {},
             reg |-> [h \in 1..Len(r.part) |-> {}], oth |-> [h \in 1..Len(r.part) |-> {}]]
Processed(r) ==
    LET st == TLCEval(AllParticles(r, Start(r), 1)) IN
    IF (st.bad # {} /\ r.add) \/ st.fail # {} THEN st
    ELSE [st EXCEPT !.fail = (IF st.n3 - r.n3 = Len(r.add3) THEN {} ELSE {"added-ahead"})
                             \cup (IF st.n2 - r.n2 = Len(r.add2) THEN {} ELSE {"added-next"})]

\* ------------------------------------------------------------- competition
Best(reg) == CHOOSE b \in reg : \A o \in reg : b[1] < o[1] \/ (b[1] = o[1] /\ b[2] <= o[2])
\* ratings that (nearly) agree are not decided
BestUnsure(r, reg) == LET b == Best(reg) IN
    RelMargin > 0 /\ \E o \in reg : o[2] # b[2] /\ Close(o[1], b[1], RelMargin \div 10)
Wants(st, h, m) == st.reg[h] # {} /\ Best(st.reg[h])[2] = m
\* a rival rated nearly the same; twins have exactly equal ratings
RivalUnsure(r, st, h) == RelMargin > 0 /\ \E g \in 1..Len(r.part) :
    /\ g # h
    /\ Wants(st, g, Best(st.reg[h])[2])
    /\ Close(Best(st.reg[g])[1], Best(st.reg[h])[1], RelMargin \div 10)
    /\ r.part[g].twin # r.part[h].twin
Undecided(r, st) == st.bad \cup { h \in 1..Len(r.part) : st.reg[h] # {} /\ BestUnsure(r, st.reg[h]) }
\* the best rated particle gets the successor it prefers, the earlier one if they are equal
Winner(st, m) == LET want == { h \in DOMAIN st.reg : st.reg[h] # {} /\ Best(st.reg[h])[2] = m } IN
    CHOOSE h \in want : \A g \in want : Best(st.reg[h])[1] < Best(st.reg[g])[1]
                                       \/ (Best(st.reg[h])[1] = Best(st.reg[g])[1] /\ h <= g)
Next2(st, h) == IF st.reg[h] = {} THEN -2
                ELSE LET m == Best(st.reg[h])[2] IN IF Winner(st, m) = h THEN m ELSE -2
=============================================================================
