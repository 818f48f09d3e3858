---------------------------- MODULE Triangulation ----------------------------
(* A position from the rays of several cameras.  A ray is a pair <<vertex,        *)
(* direction>> of integer vectors; a camera that does not see the point has none. *)
EXTENDS Lattice

Den(a, b) == Norm2(Cross(a[2], b[2]))
Skew(a, b) == Den(a, b) > 0
(* the nearest points of two lines, both over Den                                  *)
NearA(a, b) == LET p == Cross(a[2], b[2]) IN Plus(Times(Norm2(p), a[1]), Times(Dot(p, Cross(Minus(b[1], a[1]), b[2])), a[2]))
NearB(a, b) == LET p == Cross(a[2], b[2]) IN Plus(Times(Norm2(p), b[1]), Times(Dot(p, Cross(Minus(b[1], a[1]), a[2])), b[2]))
MidSum(a, b) == Plus(NearA(a, b), NearB(a, b))                 \* over 2 Den
(* their distance is Away / sqrt(Den)                                              *)
Away(a, b) == AbsI(Dot(Minus(b[1], a[1]), Cross(a[2], b[2])))
Pairs(seen) == {<<i, j>> \in seen \X seen : i < j}
NoPosition(seen) == Cardinality(seen) < 2

(* rationals: a sum of vectors over a common denominator                           *)
Lcm(a, b) == (a \div Gcd(a, b)) * b
VPlus(u, v) == LET m == Lcm(u[2], v[2]) IN <<Plus(Times(m \div u[2], u[1]), Times(m \div v[2], v[1])), m>>
SameV(u, v) == Times(v[2], u[1]) = Times(u[2], v[1])
Zero3 == <<<<0, 0, 0>>, 1>>
Reduced(u) == LET g == Gcd(Gcd(u[1][1], u[1][2]), Gcd(u[1][3], u[2])) IN IF g = 0 THEN u ELSE <<[i \in 1..3 |-> u[1][i] \div g], u[2] \div g>>
Mid(a, b) == Reduced(<<MidSum(a, b), 2 * Den(a, b)>>)
RECURSIVE SumOver(_, _, _)
SumOver(rays, ps, acc) == IF ps = {} THEN acc
    ELSE LET p == CHOOSE q \in ps : TRUE IN SumOver(rays, ps \ {p}, Reduced(VPlus(acc, Mid(rays[p[1]], rays[p[2]]))))
(* the position: the mean of the midpoints of all pairs                             *)
Position(rays, seen) == LET s == SumOver(rays, Pairs(seen), Zero3) IN Reduced(<<s[1], s[2] * Cardinality(Pairs(seen))>>)
=============================================================================
