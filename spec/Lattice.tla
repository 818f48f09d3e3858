------------------------------- MODULE Lattice -------------------------------
(* Exact geometry on the integer lattice, and comparison with recorded numbers   *)
(* (fixed point).  A rational is a pair of integers n / m with m > 0.            *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC

(* n * s / m rounded down, without an intermediate product above m * s           *)
Scaled(n, m, s) == ((n \div m) * s) + (((n % m) * s) \div m)
Close(a, b, t) == a - b <= t /\ b - a <= t
CloseVec(a, b, t) == \A i \in 1..Len(a) : Close(a[i], b[i], t)

Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Times(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Norm2(a) == Dot(a, a)
Sq(x) == x * x
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
(* integer square root, rounded down                                              *)
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m <= x \div m THEN RootIn(x, m, hi) ELSE RootIn(x, lo, m - 1)
Root(x) == IF x <= 0 THEN 0 ELSE RootIn(x, 0, MinI(x, 46340))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(b, a % AbsI(b))
(* a rational in lowest terms                                                     *)
Ratio(n, m) == LET g == TLCEval(Gcd(n, m)) IN IF m < 0 THEN <<-(n \div g), -(m \div g)>> ELSE <<n \div g, m \div g>>
RTimes(a, b) == LET g == Ratio(a[1], b[2])  h == Ratio(b[1], a[2]) IN <<g[1] * h[1], g[2] * h[2]>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RPlus(a, b) == LET g == TLCEval(Gcd(a[2], b[2]))
               IN Ratio(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
=============================================================================
