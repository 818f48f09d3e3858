------------------------------- MODULE Images -------------------------------
(* Preparation of grey images (functions from rows to columns to grey values     *)
(* 0..255): local means, a bitwise union of an image with its local mean, 3x3    *)
(* filters, masks and differences.  What is outside of an image is black.        *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Rows(g) == 1..Len(g)
Cols(g) == 1..(IF Len(g) = 0 THEN 0 ELSE Len(g[1]))
Inside(g, i, j) == i \in Rows(g) /\ j \in Cols(g)
At(g, i, j) == IF Inside(g, i, j) THEN g[i][j] ELSE 0
\* beyond the border the image is mirrored
Mirror(k, n) == IF n = 1 THEN 1 ELSE IF k < 1 THEN 1 - k ELSE IF k > n THEN 2 * n + 1 - k ELSE k
AtMirrored(g, i, j) == g[Mirror(i, Len(g))][Mirror(j, Len(g[1]))]
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
Low(a, n) == IF a - n < 1 THEN 1 ELSE a - n
High(a, n, size) == IF a + n > size THEN size ELSE a + n
\* the sum of the pixels of a window that lie inside
Segment(row, j, n) == LET a == Low(j, n) IN SumOver([k \in 1..(High(j, n, Len(row)) - a + 1) |-> row[a + k - 1]], High(j, n, Len(row)) - a + 1)
Window(g, i, j, n) == LET a == Low(i, n) b == High(i, n, Len(g)) IN SumOver([k \in 1..(b - a + 1) |-> Segment(g[a + k - 1], j, n)], b - a + 1)
Area(n) == (2 * n + 1) * (2 * n + 1)
\* v may stand for the mean of the window: rows and columns are each rounded down
IsMean(v, g, i, j, n) == LET w == Window(g, i, j, n) IN v * Area(n) <= w /\ v * Area(n) + 2 * Area(n) > w
MeanRange(g, i, j, n) == LET w == Window(g, i, j, n) m == w \div Area(n) IN (IF m = 0 THEN 0 ELSE m - 1)..m
\* v may stand for the pixel together with the mean of its window
IsPrepared(v, g, i, j, n) == \E m \in MeanRange(g, i, j, n) : v = (g[i][j] | m)
\* the sum of a 3x3 filter (in thousandths) turned over the pixel
Filtered(g, i, j, k, mirrored) ==
    SumOver([a \in 1..9 |-> LET u == (a - 1) \div 3 w == (a - 1) % 3 IN
              k[u + 1][w + 1] * (IF mirrored THEN AtMirrored(g, i + 1 - u, j + 1 - w) ELSE At(g, i + 1 - u, j + 1 - w))], 9)
IsFiltered(v, g, i, j, k, mirrored) == LET t == Filtered(g, i, j, k, mirrored) IN 1000 * v <= t /\ 1000 * v + 1000 >= t
\* v may stand for the mean of the nine pixels around
IsNine(v, g, i, j, mirrored) == LET t == SumOver([a \in 1..9 |-> LET u == (a - 1) \div 3 w == (a - 1) % 3 IN
              IF mirrored THEN AtMirrored(g, i + 1 - u, j + 1 - w) ELSE At(g, i + 1 - u, j + 1 - w)], 9) IN 9 * v <= t /\ 9 * v + 9 >= t
Difference(a, b) == IF a > b THEN a - b ELSE 0
Masked(v, m) == IF m = 0 THEN 0 ELSE v
SameShape(g, h) == Len(g) = Len(h) /\ \A i \in Rows(g) : Len(g[i]) = Len(h[i])
Each(g, h, P(_, _)) == SameShape(g, h) /\ \A i \in Rows(g), j \in Cols(g) : P(i, j)
=============================================================================
