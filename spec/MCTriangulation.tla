--------------------------- MODULE MCTriangulation ---------------------------
(* Cameras announce their rays in any order; pairs are worked off in any order.   *)
EXTENDS Triangulation, TLC
CONSTANTS NCam, Big
Verts == IF Big THEN {<<0, 0, 6>>, <<6, 0, 0>>, <<0, 6, 1>>, <<5, 5, 5>>, <<-6, 1, 0>>} ELSE {<<0, 0, 6>>, <<6, 0, 1>>, <<0, -6, 0>>}
Dirs == IF Big THEN {<<0, 0, -1>>, <<-1, 0, 0>>, <<0, 1, -1>>, <<1, 1, 1>>} ELSE {<<0, 0, -1>>, <<-1, 0, 1>>, <<1, 2, 1>>}
VARIABLES rays, seen, todo, sum, count
vars == <<rays, seen, todo, sum, count>>
NoRay == <<<<0, 0, 0>>, <<0, 0, 1>>>>
Init == /\ rays = [i \in 1..NCam |-> NoRay] /\ seen = {} /\ todo = {} /\ sum = Zero3 /\ count = 0
See == /\ count = 0
       /\ \E i \in 1..NCam \ seen, v \in Verts, d \in Dirs :
            /\ \A j \in seen : Skew(rays[j], <<v, d>>)
            /\ rays' = [rays EXCEPT ![i] = <<v, d>>] /\ seen' = seen \cup {i} /\ todo' = Pairs(seen')
       /\ UNCHANGED <<sum, count>>
Work == \E p \in todo : /\ sum' = Reduced(VPlus(sum, Mid(rays[p[1]], rays[p[2]]))) /\ todo' = todo \ {p} /\ count' = count + 1
                        /\ UNCHANGED <<rays, seen>>
Next == See \/ Work
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ count > 0
(* whatever the order of the pairs, the result is the position                      *)
AnyOrder == Done => Reduced(<<sum[1], sum[2] * count>>) = Position(rays, seen)
(* a camera that sees nothing has no influence                                      *)
Unseen == Done => \A i \in 1..NCam \ seen : Position([rays EXCEPT ![i] = <<<<1, 2, 3>>, <<1, 0, 0>>>>], seen) = Position(rays, seen)
(* the order of the cameras does not matter                                          *)
Swapped == Done /\ NCam > 1 => LET f == [i \in 1..NCam |-> IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i]
    IN Position([i \in 1..NCam |-> rays[f[i]]], {f[i] : i \in seen}) = Position(rays, seen)
(* the midpoint is as near to one line as to the other, on their common normal       *)
Midway == \A p \in Pairs(seen) : LET a == rays[p[1]]  b == rays[p[2]]
    IN /\ Dot(Minus(NearA(a, b), NearB(a, b)), a[2]) = 0 /\ Dot(Minus(NearA(a, b), NearB(a, b)), b[2]) = 0
       /\ Cross(Minus(NearA(a, b), Times(Den(a, b), a[1])), a[2]) = <<0, 0, 0>>
       /\ Cross(Minus(NearB(a, b), Times(Den(a, b), b[1])), b[2]) = <<0, 0, 0>>
       /\ Norm2(Minus(NearA(a, b), NearB(a, b))) = Sq(Away(a, b)) * Den(a, b)
       /\ Mid(a, b) = Mid(b, a)
(* rays that meet, meet in the position                                               *)
Meet == \A p \in Pairs(seen) : Away(rays[p[1]], rays[p[2]]) = 0 => NearA(rays[p[1]], rays[p[2]]) = NearB(rays[p[1]], rays[p[2]])
NoneFromOne == NoPosition(seen) => ~Done
=============================================================================
