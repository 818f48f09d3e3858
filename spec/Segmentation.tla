---------------------------- MODULE Segmentation ----------------------------
(* Target detection: which spots an image contains.                            *)
(*                                                                             *)
(* The image is a sequence of grey values, row by row; pixel p has column      *)
(* p % w and row p \div w.  A parameter record c holds w, h, img, thr, disco,  *)
(* the (already clamped) search window x0..x1-1, y0..y1-1 and the limits.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Img(c, p) == c.img[p + 1]
X(c, p) == p % c.w
Y(c, p) == p \div c.w
InWindow(c, p) == X(c, p) >= c.x0 /\ X(c, p) < c.x1 /\ Y(c, p) >= c.y0 /\ Y(c, p) < c.y1
\* window pixels are never on the image border, so all neighbours exist
N4(c, p) == {p - 1, p + 1, p - c.w, p + c.w}
N8(c, p) == N4(c, p) \cup {p - c.w - 1, p - c.w + 1, p + c.w - 1, p + c.w + 1}

\* the window asked for, kept one pixel off the image border
Clamp(c, qx0, qx1, qy0, qy1) ==
    [c EXCEPT !.x0 = IF qx0 <= 0 THEN 1 ELSE qx0,
              !.y0 = IF qy0 <= 0 THEN 1 ELSE qy0,
              !.x1 = IF qx1 >= c.imx THEN c.imx - 1 ELSE qx1,
              !.y1 = IF qy1 >= c.imy THEN c.imy - 1 ELSE qy1]

Left(c, p, done) == IF p \in done THEN 0 ELSE Img(c, p)   \* what is left of the image

\* a pixel at which a new spot starts: bright, inside, a local maximum of what is left
IsSeed(c, p, done) ==
    /\ InWindow(c, p)
    /\ p \notin done
    /\ Img(c, p) > c.thr
    /\ \A q \in N8(c, p) : Img(c, p) >= Left(c, q, done)

\* q joins the spot next to its member p
CanJoin(c, p, q, done) ==
    /\ q \in N4(c, p)
    /\ InWindow(c, q)
    /\ q \notin done
    /\ Img(c, q) > c.thr
    /\ Img(c, q) <= Img(c, p) + c.disco
    /\ \A n \in N4(c, q) : Img(c, p) + c.disco >= Img(c, n)

\* the spot grown from a frontier, whatever the order of growth
RECURSIVE Grown(_, _, _, _)
Grown(c, region, frontier, done) ==
    LET new == { q \in UNION { N4(c, p) : p \in frontier } :
                    /\ q \notin region
                    /\ \E p \in frontier : CanJoin(c, p, q, done) }
    IN IF new = {} THEN region ELSE Grown(c, region \cup new, new, done)
Region(c, seed, done) == Grown(c, {seed}, {seed}, done)

SumOver(f, S) == FoldSet(LAMBDA p, acc : f[p] + acc, 0, S)

Mod(a, b) == a % b
Stats(c, seed, R) ==
    LET xs == { X(c, p) : p \in R }
        ys == { Y(c, p) : p \in R }
        raw == SumOver([p \in R |-> Img(c, p)], R)
        net == raw - Cardinality(R) * c.thr
        mx == SumOver([p \in R |-> (X(c, p) - Min(xs)) * (Img(c, p) - c.thr)], R)
        my == SumOver([p \in R |-> (Y(c, p) - Min(ys)) * (Img(c, p) - c.thr)], R)
    IN [ seed |-> seed, n |-> Cardinality(R),
         nx |-> Max(xs) - Min(xs) + 1, ny |-> Max(ys) - Min(ys) + 1,
         raw |-> raw, sumg |-> net,
         \* the centre in thousandths of a pixel
         x |-> 1000 * (Min(xs) + mx \div net) + 500 + (1000 * Mod(mx, net)) \div net,
         y |-> 1000 * (Min(ys) + my \div net) + 500 + (1000 * Mod(my, net)) \div net ]

Acceptable(c, s) ==
    /\ c.nnmin <= s.n /\ s.n <= c.nnmax
    /\ c.nxmin <= s.nx /\ s.nx <= c.nxmax
    /\ c.nymin <= s.ny /\ s.ny <= c.nymax
    /\ s.raw > c.summin

\* every spot of the image, in scan order
Bright(c) == { p \in 0..(c.w * c.h - 1) : Img(c, p) > c.thr /\ InWindow(c, p) }
Spots(c) ==
    LET Next(acc, p) ==
            IF IsSeed(c, p, acc.done)
            THEN LET R == Region(c, p, acc.done)
                 IN [ spots |-> Append(acc.spots, Stats(c, p, R)), done |-> acc.done \cup R ]
            ELSE acc
    IN FoldLeft(Next, [ spots |-> <<>>, done |-> {} ], SetToSortSeq(Bright(c), <)).spots
\* a limit is met exactly
AtLimit(c, s) == \/ s.n \in {c.nnmin, c.nnmax} \/ s.nx \in {c.nxmin, c.nxmax} \/ s.ny \in {c.nymin, c.nymax}
                 \/ s.raw = c.summin + 1
Targets(c) == LET Ok(s) == Acceptable(c, s) IN SelectSeq(Spots(c), Ok)
=============================================================================
