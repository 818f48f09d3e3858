------------------------------ MODULE MCImages ------------------------------
(* Every small image: what preparation must do whatever the numbers are.         *)
EXTENDS Images, TLC
CONSTANTS H, W, Values, Spans
VARIABLES g, n, out, pos
vars == << g, n, out, pos >>
Black == [i \in 1..H |-> [j \in 1..W |-> 0]]
Init == g \in [1..H -> [1..W -> Values]] /\ n \in Spans /\ out = Black /\ pos = 0
\* pixel by pixel; any rounding that is allowed
Next == /\ pos < H * W
        /\ pos' = pos + 1
        /\ LET i == (pos \div W) + 1 j == (pos % W) + 1 IN
           \E m \in { Window(g, i, j, n) \div Area(n) } : out' = [out EXCEPT ![i][j] = (g[i][j] | m)]
        /\ UNCHANGED << g, n >>
Spec == Init /\ [][Next]_vars
Done == pos = H * W
Grey == \A i \in 1..H, j \in 1..W : out[i][j] \in 0..255
Defined == Done => \A i \in 1..H, j \in 1..W : IsPrepared(out[i][j], g, i, j, n)
\* never darker than the pixel, never brighter than pixel and mean added up
NotDarker == Done => \A i \in 1..H, j \in 1..W : out[i][j] >= g[i][j] /\ out[i][j] * Area(n) <= g[i][j] * Area(n) + Window(g, i, j, n)
BlackStays == Done => \A i \in 1..H, j \in 1..W :
    (\A a \in 1..H, b \in 1..W : (a - i \in (-n)..n /\ b - j \in (-n)..n) => g[a][b] = 0) => out[i][j] = 0
NoWindow == (Done /\ n = 0) => out = g
EvenStays == Done => \A i \in 1..H, j \in 1..W :
    (i - n >= 1 /\ i + n <= H /\ j - n >= 1 /\ j + n <= W /\ \A a \in (i - n)..(i + n), b \in (j - n)..(j + n) : g[a][b] = g[i][j]) => out[i][j] = g[i][j]
\* after the first step: windows, filters and differences of the image itself (independent of the steps)
FlipRows(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Transposed(x) == [j \in Cols(x) |-> [i \in Rows(x) |-> x[i][j]]]
Ones == << << 1, 1, 1 >>, << 1, 1, 1 >>, << 1, 1, 1 >> >>
Shift == << << 0, 0, 0 >>, << 0, 0, 1 >>, << 0, 0, 0 >> >>
Laws == pos = 1 =>
    /\ \A i \in 1..H, j \in 1..W :
        /\ Window(g, i, j, n) = Window(FlipRows(g), H + 1 - i, j, n)
        /\ Window(g, i, j, n) = Window(Transposed(g), j, i, n)
        /\ Filtered(g, i, j, Ones, FALSE) = Window(g, i, j, 1)
        /\ Filtered(g, i, j, Shift, FALSE) = At(g, i, j - 1)
        /\ (i \in 2..(H - 1) /\ j \in 2..(W - 1)) => Filtered(g, i, j, Ones, TRUE) = Filtered(g, i, j, Ones, FALSE)
        /\ Difference(g[i][j], 0) = g[i][j] /\ Difference(0, g[i][j]) = 0
        /\ IsMean(Window(g, i, j, n) \div Area(n), g, i, j, n)
        /\ \A v \in MeanRange(g, i, j, n) : IsMean(v, g, i, j, n)
=============================================================================
