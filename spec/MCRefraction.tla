----------------------------- MODULE MCRefraction -----------------------------
(* A ray from a camera through glass into water, and back.                        *)
EXTENDS Refraction, TLC
CONSTANTS MaxK, Small
Angles == IF Small THEN {<<0, 1, 1>>, <<3, 4, 5>>, <<5, 12, 13>>, <<7, 24, 25>>}
          ELSE {<<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<7, 24, 25>>, <<20, 21, 29>>, <<9, 40, 41>>}
Bases == {<<<<0, 0, 3>>, <<3, 0, 0>>>>, <<<<1, 2, 2>>, <<2, 1, -2>>>>, <<<<1, 2, 2>>, <<2, -2, 1>>>>, <<<<2, 2, 1>>, <<-1, 2, -2>>>>}
VARIABLES s, q12, q23, at, medium, ang, way, gone
vars == <<s, q12, q23, at, medium, ang, way, gone>>
Zero(a) == a[1] = 0
Init == /\ \E b \in Bases, a1, a2, a3 \in Angles, k1, k2 \in 1..MaxK, g \in 0..1 :
            /\ (Zero(a1) <=> Zero(a2)) /\ (Zero(a1) <=> Zero(a3))
            /\ s = [nrm |-> b[1], lat |-> b[2], a1 |-> a1, a2 |-> a2, a3 |-> a3, k1 |-> k1, k2 |-> k2, k3 |-> 0,
                    gap |-> g, foot |-> Times(g, Cross(b[1], b[2]))]
            /\ q12 = (IF Zero(a1) THEN <<3, 4>> ELSE Index(a1, a2))
            /\ q23 = (IF Zero(a1) THEN <<6, 5>> ELSE Index(a2, a3))
        /\ at = Camera(s) /\ medium = 1 /\ ang = s.a1 /\ way = "out" /\ gone = 0
Move(k) == at' = (IF way = "out" THEN Plus(at, Times(k, Dir(s.lat, s.nrm, ang)))
                  ELSE Minus(at, Times(k, Dir(s.lat, s.nrm, ang))))
ToGlass == medium = 1 /\ way = "out" /\ Passes(ang, q12) /\ Move(s.k1) /\ medium' = 2 /\ ang' = Refracted(ang, q12) /\ UNCHANGED <<s, q12, q23, way, gone>>
ToWater == medium = 2 /\ way = "out" /\ Passes(ang, q23) /\ Move(s.k2 * (s.a2[3] \div ang[3])) /\ medium' = 3 /\ ang' = Refracted(ang, q23) /\ UNCHANGED <<s, q12, q23, way, gone>>
InWater == medium = 3 /\ way = "out" /\ gone < MaxK /\ gone' = gone + 1 /\ Move(1) /\ UNCHANGED <<s, q12, q23, medium, ang, way>>
TurnBack == medium = 3 /\ way = "out" /\ way' = "back" /\ UNCHANGED <<s, q12, q23, at, medium, ang, gone>>
BackToGlass == medium = 3 /\ way = "back" /\ Move(gone) /\ medium' = 2 /\ ang' = Refracted(ang, RInv(q23)) /\ UNCHANGED <<s, q12, q23, way, gone>>
BackToAir == medium = 2 /\ way = "back" /\ Move(s.k2) /\ medium' = 1 /\ ang' = Refracted(ang, RInv(q12)) /\ UNCHANGED <<s, q12, q23, way, gone>>
Home == medium = 1 /\ way = "back" /\ Move(s.k1) /\ medium' = 0 /\ UNCHANGED <<s, q12, q23, ang, way, gone>>
Next == ToGlass \/ ToWater \/ InWater \/ TurnBack \/ BackToGlass \/ BackToAir \/ Home
Spec == Init /\ [][Next]_vars

Laws == Sound(s) /\ Sq(ang[1]) + Sq(ang[2]) = Sq(ang[3])
(* the angles in the three media are those of Snell's law                         *)
Snell == /\ medium = 2 => Same(ang, s.a2)
         /\ medium = 3 => Same(ang, s.a3)
         /\ medium \in {0, 1} => Same(ang, s.a1)
(* the ray stays in the plane of incidence                                         *)
InPlane == Dot(Minus(at, Camera(s)), Cross(s.nrm, s.lat)) = 0
(* it meets the surfaces where the closed form says, and the point in water too    *)
Places == /\ way = "out" /\ medium = 2 => at = OnFar(s) /\ Dot(at, s.nrm) = 9 * (s.gap + s.k2 * s.a2[2])
          /\ way = "out" /\ medium = 3 /\ gone = 0 => at = OnNear(s) /\ Dot(at, s.nrm) = 9 * s.gap
          /\ way = "out" /\ medium = 3 => LET t == [s EXCEPT !.k3 = gone]
                                             k == s.a3[3] \div ang[3]
                                         IN k = 1 => at = Point(t)
(* the way back ends in the camera                                                  *)
Returns == medium = 0 => at = Camera(s)
(* the projection exists: the point is met by no other ray of the same camera      *)
OnePoint == way = "out" /\ medium = 3 /\ s.a1[1] > 0 =>
    LET d == Minus(at, Camera(s)) IN Dot(d, s.lat) > 0 /\ Dot(d, s.nrm) < 0
(* what is behind glass appears nearer to the axis or further according to the indices *)
Appears == way = "out" /\ medium = 3 /\ s.a1[1] > 0 =>
    LET t == [s EXCEPT !.k3 = gone]
    IN /\ (Same(s.a1, s.a2) /\ Same(s.a1, s.a3) => Apparent(t) = <<Radius(t), 1>>)
       /\ (s.a1[1] * s.a2[3] > s.a2[1] * s.a1[3] /\ s.a1[1] * s.a3[3] > s.a3[1] * s.a1[3] => RLess(<<Radius(t), 1>>, Apparent(t)))
=============================================================================
