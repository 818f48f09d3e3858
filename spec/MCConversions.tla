---------------------------- MODULE MCConversions ----------------------------
EXTENDS Conversions, TLC
CONSTANTS MaxT, Half
(* targets are found one after the other and entered in the list; the whole list    *)
(* is what a camera's matching works with                                            *)
Cams == {[w |-> w, h |-> h, px |-> px, py |-> py] : w \in {4, 5}, h \in {2, 6}, px \in {1, 3}, py \in {2, 3}}
Params == {[k1 |-> a, k2 |-> 0, k3 |-> 0, p1 |-> b, p2 |-> d, scale |-> s] : a \in {-40, 0, 40}, b \in {-20, 10}, d \in {0, 15}, s \in {97, 100}}
VARIABLES cam, targets, list, par
vars == <<cam, targets, list, par>>
PlainPar == [k1 |-> 0, k2 |-> 0, k3 |-> 0, p1 |-> 0, p2 |-> 0, scale |-> 100]
OneCam == CHOOSE c \in Cams : TRUE
Init == /\ targets = <<>> /\ list = <<>>
        /\ \/ cam \in Cams /\ par = PlainPar
           \/ cam = OneCam /\ par \in Params
Places == (0..4) \X (0..3)
Found == /\ Len(targets) < MaxT /\ par = PlainPar
         /\ \E p \in Places, n \in 0..MaxT :
              /\ \A i \in 1..Len(targets) : targets[i].pnr # n
              /\ targets' = Append(targets, [pnr |-> n, p |-> p])
              /\ list' = Insert(list, [pnr |-> n, x |-> Metric(p, cam)[1], y |-> Metric(p, cam)[2]])
         /\ UNCHANGED <<cam, par>>
Spec == Init /\ [][Found]_vars
InOrder == Sorted(list)
Complete == OnePerTarget(list, targets)
Attached == \A i \in 1..Len(targets) : LET e == Entry(list, targets[i].pnr) IN Pixel(<<e.x, e.y>>, cam) = targets[i].p
ThereAndBack == targets = <<>> => \A p \in Places : Pixel(Metric(p, cam), cam) = p
(* y points up in metric and down in pixel coordinates, the centre is the origin     *)
Orientation == targets = <<>> => \A p, q \in Places : (p[1] < q[1] => Metric(p, cam)[1] < Metric(q, cam)[1]) /\ (p[2] < q[2] => Metric(p, cam)[2] > Metric(q, cam)[2])
               /\ Metric(<<cam.w, cam.h>>, cam) = <<0, 0>>
(* distortion can be undone: no two places become one, and the order along a line stays *)
OneToOne == targets = <<>> => \A u, v \in (-Half..Half) \X (-Half..Half) : u # v => Distorted(u, par) # Distorted(v, par)
Monotone == targets = <<>> => \A x \in -Half..(Half - 1), y \in -Half..Half : Distorted(<<x, y>>, par)[1] < Distorted(<<x + 1, y>>, par)[1]
Plain == Distorted(<<3, -4>>, PlainPar) = <<1500000, -2000000>>
=============================================================================
