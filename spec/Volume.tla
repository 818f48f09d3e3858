------------------------------- MODULE Volume -------------------------------
(* The measured volume and epipolar lines.  A ray is [p |-> vertex, d |->        *)
(* direction] with integer vectors and d[3] < 0; layers are [x |-> <<x0, x1>>,    *)
(* near |-> <<z at x0, z at x1>>, far |-> ...].  Rationals as in Lattice.         *)
EXTENDS Lattice
LOCAL INSTANCE TLC

(* where a ray crosses the depth z (integer): coordinate i                         *)
Cross1(ray, z, i) == Ratio(ray.p[i] * ray.d[3] + (z - ray.p[3]) * ray.d[i], ray.d[3])
Widest(v) == <<MinI(v.near[1], v.near[2]), MaxI(v.far[1], v.far[2])>>
(* the depth of a tilted layer z = <<z0, z1>> at the (rational) position q          *)
Depth(x, z, q) == RPlus(<<z[1], 1>>, RTimes(Ratio(z[2] - z[1], x[2] - x[1]), RPlus(q, <<-x[1], 1>>)))
Half(a, b) == RTimes(RPlus(a, b), <<1, 2>>)
(* a point of a ray at a rational depth                                             *)
At(ray, z, i) == RPlus(<<ray.p[i], 1>>, RTimes(RPlus(z, <<-ray.p[3], 1>>), Ratio(ray.d[i], ray.d[3])))

(* widening an interval of rationals                                                *)
RMin(a, b) == IF RLess(b, a) THEN b ELSE a
RMax(a, b) == IF RLess(a, b) THEN b ELSE a
Widen(iv, q) == <<RMin(iv[1], q), RMax(iv[2], q)>>
RLeq(a, b) == ~RLess(b, a)
Within(q, iv) == RLeq(iv[1], q) /\ RLeq(q, iv[2])

(* the volume, as a function of the set of rays                                     *)
Crossings(rays, depths, i) == {Cross1(r, z, i) : r \in rays, z \in depths}
Least(qs) == CHOOSE a \in qs : \A b \in qs : RLeq(a, b)
Greatest(qs) == CHOOSE a \in qs : \A b \in qs : RLeq(b, a)
Extent(rays, v, start, i) ==
    LET w == Widest(v)
        qs == TLCEval(Crossings(rays, {w[1], w[2]}, i) \cup {<<start[1], 1>>, <<start[2], 1>>})
    IN <<Least(qs), Greatest(qs)>>
=============================================================================
