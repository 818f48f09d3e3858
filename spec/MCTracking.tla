----------------------------- MODULE MCTracking -----------------------------
(* Tracking on a line: every small arrangement of particles in four frames.    *)
(* The step is taken particle by particle, then the competition is resolved    *)
(* one particle after the other, as an implementation without global view      *)
(* does it.  Checked: what the specified step promises (limits, mutual links,  *)
(* free targets), and that the sequential resolution finds the specified       *)
(* winners.                                                                    *)
EXTENDS Tracking
CONSTANTS Places, NCur, NNext, NAhead, NFree, Lim, Acc, Adding, Lasts

VARIABLES rec, st, h, phase, nxt, prv
vars == << rec, st, h, phase, nxt, prv >>

Pix == 4                                   \* pixels per unit of length
Dist(a, b) == Abs(a - b)
Ang(v0, v1) == IF v0 = v1 THEN 0 ELSE IF (v0 > 0 /\ v1 < 0) \/ (v0 < 0 /\ v1 > 0) THEN 2 * One ELSE 0
Rel(start, pred, cand, dl) ==
    [acc |-> (Dist(pred, cand) * One) \div Acc, ang |-> Ang(pred - start, cand - start), dl |-> (dl * One) \div (4 * Lim)]
Win(x, c) == << Pix * c, 8, Pix * (c - x) + Pix * Lim, Pix * (x - c) + Pix * Lim, 2, 2 >>
D3(d) == << d, 0, 0 >>
\* lengths in half units, so that the predicted position of the frame after the next is on the grid
Half(a) == IF a >= 0 THEN a \div 2 ELSE -((-a) \div 2)
Targets(xs, free) == [c \in 1..2 |-> [i \in 1..Len(xs) |-> << Pix * xs[i], 8, i - 1 >>]
                                    \o [i \in 1..Len(free) |-> << Pix * free[i], 8, -1 >>]]
\* the particle made from free targets i and j
News(xs, free, f(_)) ==
    [e \in 1..(Len(free) * Len(free)) |->
        LET i == (e - 1) \div Len(free) + 1
            j == (e - 1) - (i - 1) * Len(free) + 1
            x == (free[i] + free[j]) \div 2
        IN [t |-> << Len(xs) + i - 1, Len(xs) + j - 1 >>, x |-> << x, 0, 0 >>] @@ f(x)]

MakeRec(x0, has, x1, x2, f2, x3, f3, add, last) ==
    LET \* particles after the step are not known yet: room for those that may be added
        all2 == x2 \o f2
        all3 == x3 \o f3
        pred(k) == IF has[k] THEN 2 * x1[k] - x0[k] ELSE x1[k]
        pred5(k, c) == IF has[k] THEN Half(5 * c - 4 * x1[k] + x0[k]) ELSE 2 * c - x1[k]
        part(k) ==
            [prev |-> has[k], twin |-> k, q |-> [c \in 1..2 |-> Win(pred(k), pred(k))],
             m |-> [m \in 1..Len(all2) |->
                LET c == all2[m]
                    g == IF has[k] THEN Rel(x1[k], pred(k), c, Dist(x1[k], c) + Dist(x0[k], x1[k]))
                         ELSE [acc |-> 0, ang |-> 0, dl |-> 0]
                    x5 == pred5(k, c)
                IN [d |-> D3(c - x1[k]), q |-> [cc \in 1..2 |-> Win(x5, x5)],
                    k |-> [n \in 1..Len(all3) |-> [d |-> D3(all3[n] - c)]
                               @@ Rel(c, all3[n], x5, Dist(x1[k], c) + Dist(all3[n], c))],
                    new |-> News(x3, f3, LAMBDA x : [d |-> D3(c - x)] @@ Rel(c, x, x5, Dist(x1[k], c) + Dist(x, c)))] @@ g],
             lost |-> News(x2, f2, LAMBDA x : [d |-> D3(pred(k) - x)]
                               @@ Rel(x1[k], pred(k), x, Dist(x1[k], x) + Dist(x0[k], x1[k])))]
    IN [add |-> add, last |-> last, pm |-> 0, w |-> 1000, h |-> 16, lim |-> << -Lim, Lim, -1, 1, -1, 1 >>,
        vol |-> << -1, 100, -1, 1, -1, 1 >>, t2 |-> Targets(x2, f2), t3 |-> Targets(x3, f3),
        n2 |-> Len(x2), n3 |-> Len(x3), part |-> [k \in 1..Len(x1) |-> part(k)],
        add2 |-> <<>>, add3 |-> <<>>, x1 |-> x1, x2 |-> x2, x3 |-> x3, f2 |-> f2, f3 |-> f3, x0 |-> x0]

Lists(n) == UNION { [1..k -> Places] : k \in 0..n }
Init == /\ \E x1 \in [1..NCur -> Places], x2 \in Lists(NNext), f2 \in Lists(NFree), x3 \in Lists(NAhead),
              f3 \in Lists(NFree), add \in Adding, last \in Lasts :
              \E x0 \in [1..NCur -> Places], has \in [1..NCur -> BOOLEAN] :
                 /\ \A k \in 1..NCur : ~has[k] => x0[k] = CHOOSE p \in Places : TRUE
                 /\ last => x3 = <<>> /\ f3 = <<>>
                 /\ ~add => f2 = <<>> /\ f3 = <<>>
                 /\ rec = MakeRec(x0, has, x1, x2, f2, x3, f3, add, last)
        /\ st = Start(rec)
        /\ h = 1
        /\ phase = "search"
        /\ nxt = << >>
        /\ prv = << >>

\* what an added particle is made of is free to choose in the specification of records (it is observed there);
\* here the choice is what the step itself takes
WithAdded(r, s) == LET t2 == Unused(Search([c \in 1..2 |-> AddBox(r, s.t2[c], r.part[h].q[c])], FALSE)) IN
    [r EXCEPT !.add2 = Append(@, t2)]
Search1 ==
    /\ phase = "search"
    /\ h <= Len(rec.part)
    /\ LET s1 == Particle(rec, st, h)
           \* supply the targets of the particles that the step adds
           r2 == IF "added-next" \in s1.fail THEN WithAdded(rec, st) ELSE rec
           s2 == IF r2 = rec THEN s1 ELSE Particle(r2, st, h)
       IN /\ rec' = r2
          /\ st' = [s2 EXCEPT !.fail = @ \ {"added-ahead"}]
    /\ h' = h + 1
    /\ UNCHANGED << phase, nxt, prv >>
Turn ==
    /\ phase = "search"
    /\ h > Len(rec.part)
    /\ phase' = "link"
    /\ h' = 1
    /\ nxt' = [k \in 1..Len(rec.part) |-> IF st.reg[k] = {} THEN -2 ELSE Best(st.reg[k])[2]]
    /\ prv' = [m \in 1..st.n2 |-> -1]
    /\ UNCHANGED << rec, st >>
\* the particle takes its successor, gives way to, or drives out the one that has it
Link1 ==
    /\ phase = "link"
    /\ h <= Len(rec.part)
    /\ LET m == nxt[h] + 1 IN
       IF st.reg[h] = {} THEN UNCHANGED << nxt, prv >>
       ELSE IF prv[m] = -1 THEN prv' = [prv EXCEPT ![m] = h - 1] /\ UNCHANGED nxt
       ELSE LET g == prv[m] + 1 IN
            IF Best(st.reg[g])[1] > Best(st.reg[h])[1]
            THEN nxt' = [nxt EXCEPT ![g] = -2] /\ prv' = [prv EXCEPT ![m] = h - 1]
            ELSE nxt' = [nxt EXCEPT ![h] = -2] /\ UNCHANGED prv
    /\ h' = h + 1
    /\ UNCHANGED << rec, st, phase >>
Next == Search1 \/ Turn \/ Link1
Spec == Init /\ [][Next]_vars

Done == phase = "link" /\ h > Len(rec.part)
\* ---- C10
Mutual == Done => /\ \A k \in DOMAIN nxt : nxt[k] # -2 => prv[nxt[k] + 1] = k - 1
                  /\ \A m \in DOMAIN prv : prv[m] # -1 => nxt[prv[m] + 1] = m - 1
\* ---- C11
SequentialFindsWinners == Done => \A k \in DOMAIN nxt : nxt[k] = Next2(st, k)
LosersLostToBetter == Done => \A k \in DOMAIN nxt :
    (st.reg[k] # {} /\ nxt[k] = -2) => \E g \in DOMAIN nxt : /\ nxt[g] = Best(st.reg[k])[2]
                                                             /\ Best(st.reg[g])[1] <= Best(st.reg[k])[1]
\* ---- C12: a link is a movement within the limits on one side at least, and inside the search area
Pos2(m) == IF m < rec.n2 THEN rec.x2[m + 1] ELSE -100
LinkedWithinReach == Done => \A k \in DOMAIN nxt :
    (nxt[k] # -2 /\ nxt[k] < rec.n2) =>
        LET P == rec.part[k]
            c == Pos2(nxt[k])
            around == IF P.prev THEN 2 * rec.x1[k] - rec.x0[k] ELSE rec.x1[k]
        IN /\ Dist(c, around) < Lim
           /\ \/ P.prev /\ Dist(c, rec.x1[k]) < Lim
              \/ ~rec.last /\ \E y \in ToSet(rec.x3) \cup ToSet(rec.f3) : Dist(y, c) < Lim
NoReasonNoLink == Done => \A k \in DOMAIN nxt :
    (rec.last /\ ~rec.part[k].prev) => nxt[k] = -2
\* ---- C13
FreeOnly == /\ (~rec.add => st.n2 = rec.n2 /\ st.n3 = rec.n3 /\ st.t2 = rec.t2 /\ st.t3 = rec.t3)
            /\ \A c \in 1..2 : \A i \in 1..Len(rec.t2[c]) : Linked(rec.t2[c][i]) => st.t2[c][i] = rec.t2[c][i]
            /\ \A c \in 1..2 : \A i \in 1..Len(rec.t3[c]) : Linked(rec.t3[c][i]) => st.t3[c][i] = rec.t3[c][i]
            /\ \A p \in rec.n2..(st.n2 - 1) :
                  Cardinality({ c \in 1..2 : \E i \in 1..Len(st.t2[c]) : st.t2[c][i][3] = p }) >= MinCams
=============================================================================
