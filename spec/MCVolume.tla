------------------------------ MODULE MCVolume ------------------------------
(* The rays of the image corners are taken one by one and widen the volume; an    *)
(* epipolar line is followed from its near to its far end.                        *)
EXTENDS Volume, TLC
CONSTANTS Span, Slopes, Tops, NRays, TiltSpan
ASSUME Span \in Nat /\ NRays \in Nat
(* the last component of the vertex, directions over a common denominator 2        *)
AllRays == {[p |-> <<x, y, t>>, d |-> <<a - Slopes, b - Slopes, -2>>] : x \in {0, Span}, y \in {0}, t \in Tops, a \in 0..(2 * Slopes), b \in {Slopes, 2 * Slopes}}
Layers == {[x |-> <<0, 2>>, near |-> <<a - TiltSpan, b - TiltSpan>>, far |-> <<a + 1, b + 1>>] : a \in 0..TiltSpan, b \in 0..TiltSpan}
Starts == {<<0, 0>>, <<-1, 2>>}
VARIABLES v, start, todo, box, ray, at
vars == <<v, start, todo, box, ray, at>>
RECURSIVE UpTo(_)
UpTo(k) == IF k = 1 THEN {{r} : r \in AllRays} ELSE LET m == UpTo(k - 1) IN m \cup {s \cup {r} : s \in m, r \in AllRays}
Init == /\ v \in Layers
        /\ start \in Starts
        /\ todo \in UpTo(NRays)
        /\ box = [i \in 1..2 |-> <<<<start[1], 1>>, <<start[2], 1>>>>]
        /\ ray = [all |-> todo]
        /\ at = 0
Take(r, near) ==
    LET w == Widest(v)
    IN /\ at = 0
       /\ box' = [i \in 1..2 |-> Widen(Widen(box[i], Cross1(r, w[IF near THEN 1 ELSE 2], i)), Cross1(r, w[IF near THEN 2 ELSE 1], i))]
       /\ todo' = todo \ {r}
       /\ UNCHANGED <<v, start, ray, at>>
(* afterwards one of the rays is followed in quarters of the way                     *)
Follow == /\ todo = {} /\ at < 4 /\ at' = at + 1 /\ UNCHANGED <<v, start, todo, box, ray>>
Next == (\E r \in todo, near \in BOOLEAN : Take(r, near)) \/ Follow
Spec == Init /\ [][Next]_vars
Done == todo = {}
(* the result does not depend on the order                                           *)
ByDefinition == Done /\ at = 0 => \A i \in 1..2 : box[i] = Extent(ray.all, v, start, i)
HoldsStart == \A i \in 1..2 : Within(<<start[1], 1>>, box[i]) /\ Within(<<start[2], 1>>, box[i])
Grows == [][\A i \in 1..2 : RLeq(box'[i][1], box[i][1]) /\ RLeq(box[i][2], box'[i][2])]_vars
(* depths of the layers lie in the depth range between the positions of the layers   *)
Quarter(k) == <<k, 4>>
Line(r) == LET q == At(r, <<2, 1>>, 1)   \* the ray starts on the glass at height 2
           IN <<Depth(v.x, v.near, q), Depth(v.x, v.far, q)>>
Pos(r, k) == LET e == Line(r) IN RPlus(e[1], RTimes(Quarter(k), RPlus(e[2], <<-e[1][1], e[1][2]>>)))
LayersMeet == \A i \in 1..2 : Depth(v.x, v.near, <<v.x[i], 1>>) = <<v.near[i], 1>> /\ Depth(v.x, v.far, <<v.x[i], 1>>) = <<v.far[i], 1>>
DepthsInRange == \A q \in {0, 1, 2} : LET w == Widest(v) IN
    \A z \in {v.near, v.far} : RLeq(<<MinI(w[1], z[1]), 1>>, Depth(v.x, z, <<q, 1>>)) /\ RLeq(Depth(v.x, z, <<q, 1>>), <<MaxI(w[2], z[2]), 1>>)
(* a ray between the two widest depths never leaves the volume                        *)
StaysInside == Done => \A r \in ray.all : LET w == Widest(v)
                                              z == RPlus(<<w[1], 1>>, RTimes(Quarter(at), <<w[2] - w[1], 1>>))
                                          IN \A i \in 1..2 : Within(At(r, z, i), box[i])
(* half way is the middle                                                             *)
MiddleIsHalf == \A r \in ray.all : Half(Line(r)[1], Line(r)[2]) = Pos(r, 2)
(* seen from another camera above, the image of a ray runs monotonically from end to end *)
Top == 9
Image(q, z) == RTimes(q, RInv(RPlus(<<Top, 1>>, <<-z[1], z[2]>>)))
Monotone == Done => \A r \in ray.all :
    LET f(k) == Image(At(r, Pos(r, k), 1), Pos(r, k))
    IN \/ \A k \in 0..3 : RLeq(f(k), f(k + 1))
       \/ \A k \in 0..3 : RLeq(f(k + 1), f(k))
=============================================================================
