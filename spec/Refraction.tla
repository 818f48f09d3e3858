------------------------------ MODULE Refraction ------------------------------
(* A ray through two plane surfaces (air - glass - water), in exact arithmetic.   *)
(* An angle is a Pythagorean triple <<s, c, h>>: sine s / h and cosine c / h.      *)
(* The glass has the normal nrm / 3 (integers, norm 3, towards the camera); the    *)
(* ray runs in the plane of nrm and lat (norm 3 too).  Its near side (towards the  *)
(* points) is at the distance 3 gap from the origin.                               *)
EXTENDS Lattice

Dir(lat, nrm, a) == Minus(Times(a[1], lat), Times(a[2], nrm))      \* over 3 h
(* refraction: the part along the surface is multiplied by the ratio of indices    *)
(* q (before / after), the part along the normal follows from the unit length      *)
SinAfter(a, q) == RTimes(<<a[1], a[3]>>, q)
Refracted(a, q) == LET sn == SinAfter(a, q)
                   IN <<sn[1], Root(Sq(sn[2]) - Sq(sn[1])), sn[2]>>
Passes(a, q) == LET sn == SinAfter(a, q) IN /\ sn[1] <= sn[2]
                                             /\ Sq(Root(Sq(sn[2]) - Sq(sn[1]))) = Sq(sn[2]) - Sq(sn[1])
Same(a, b) == a[1] * b[3] = b[1] * a[3] /\ a[2] * b[3] = b[2] * a[3]
(* the ratio of indices that turns angle a into angle b                            *)
Index(a, b) == Ratio(b[1] * a[3], b[3] * a[1])

(* a scene: camera 3 k1 c1 above the far side of a glass 3 k2 c2 thick, a point    *)
(* 3 k3 c3 behind the near side; the ray meets                                      *)
Thick(s) == 3 * s.k2 * s.a2[2]
CamHeight(s) == 3 * s.k1 * s.a1[2]
Depth(s) == 3 * s.k3 * s.a3[2]
Camera(s) == Plus(s.foot, Times(s.gap + s.k2 * s.a2[2] + s.k1 * s.a1[2], s.nrm))
OnFar(s) == Plus(Camera(s), Times(s.k1, Dir(s.lat, s.nrm, s.a1)))
OnNear(s) == Plus(OnFar(s), Times(s.k2, Dir(s.lat, s.nrm, s.a2)))
Point(s) == Plus(OnNear(s), Times(s.k3, Dir(s.lat, s.nrm, s.a3)))
(* distance along the surface between camera and point                             *)
Radius(s) == 3 * (s.k1 * s.a1[1] + s.k2 * s.a2[1] + s.k3 * s.a3[1])
(* where the point appears to be, without glass and water                          *)
Apparent(s) == Ratio(s.a1[1] * (CamHeight(s) + Thick(s) + Depth(s)), s.a1[2])
Sound(s) == /\ Norm2(s.nrm) = 9 /\ Norm2(s.lat) = 9 /\ Dot(s.nrm, s.lat) = 0 /\ Dot(s.foot, s.nrm) = 0
            /\ \A a \in {s.a1, s.a2, s.a3} : Sq(a[1]) + Sq(a[2]) = Sq(a[3]) /\ a[2] > 0
=============================================================================
