----------------------------- MODULE Conversions -----------------------------
(* Pixels, metric positions, distortion, and the sorted list of flat positions.    *)
(* Pixel positions in halves of a pixel, pixel sizes in units u (thousandths of a  *)
(* mm): metric positions come out in u / 2, exactly.                                *)
EXTENDS Lattice

Metric(p, c) == <<(p[1] - c.w) * c.px, (c.h - p[2]) * c.py>>
(* only for metric positions that are a whole number of half pixels                  *)
Pixel(m, c) == <<(m[1] \div c.px) + c.w, c.h - (m[2] \div c.py)>>

(* Brown's distortion and the affinity, for a position <<x, y>> in halves of a mm.   *)
(* Parameters: k1 in 1e-5, k2 in 1e-7, k3 in 1e-9, p1 and p2 in 1e-5, scale in 1/100 *)
(* with no shear.  The result is in 1e-6 mm.                                         *)
R2(v) == Sq(v[1]) + Sq(v[2])
Radial(x, v, a) == ((10 * x * a.k1 * R2(v)) \div 8) + ((x * a.k2 * R2(v) * R2(v)) \div 320)
                   + ((x * a.k3 * R2(v) * R2(v) * R2(v)) \div 128000)
Decentre(x, p, q, v) == ((10 * p * (R2(v) + 2 * Sq(x))) \div 4) + ((20 * q * v[1] * v[2]) \div 4)
Brown(v, a) == <<500000 * v[1] + Radial(v[1], v, a) + Decentre(v[1], a.p1, a.p2, v),
                 500000 * v[2] + Radial(v[2], v, a) + Decentre(v[2], a.p2, a.p1, v)>>
Distorted(v, a) == LET b == Brown(v, a) IN <<Scaled(b[1], 100, a.scale), b[2]>>

(* the list of flat positions: one entry per target, in order of x                   *)
Sorted(l) == \A i \in 1..(Len(l) - 1) : l[i].x <= l[i + 1].x
RECURSIVE Insert(_, _)
Insert(l, e) == IF l = <<>> \/ e.x < l[1].x THEN <<e>> \o l ELSE <<l[1]>> \o Insert(Tail(l), e)
Numbers(l) == {l[i].pnr : i \in 1..Len(l)}
OnePerTarget(l, targets) == /\ Len(l) = Len(targets)
                            /\ \A i \in 1..Len(targets) : Cardinality({k \in 1..Len(l) : l[k].pnr = targets[i].pnr}) = 1
Entry(l, n) == l[CHOOSE k \in 1..Len(l) : l[k].pnr = n]
=============================================================================
