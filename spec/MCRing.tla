-------------------------------- MODULE MCRing --------------------------------
EXTENDS Ring, TLC
CONSTANTS MaxLen, Depth
Nums == 1..2
Blank == [parts |-> 0, links |-> 0, targets |-> 0]
VARIABLES w, at, disk, q, fifo, steps, last
vars == <<w, at, disk, q, fifo, steps, last>>
Init == /\ \E n \in 1..MaxLen : w = [i \in 1..n |-> [id |-> i, c |-> Blank]] /\ q = NewQueue(n)
        /\ at = 0 /\ fifo = <<>> /\ steps = 0 /\ last = "start"
        /\ disk = [k \in Nums |-> [parts |-> k, links |-> 10 + k, plain |-> 20 + k, targets |-> 30 + k]]
Step(op) == steps < Depth /\ steps' = steps + 1 /\ last' = op
Next1 == Step("next") /\ w' = Forward(w) /\ at' = at + 1 /\ UNCHANGED <<disk, q, fifo>>
Prev1 == Step("prev") /\ w' = Back(w) /\ at' = at - 1 /\ UNCHANGED <<disk, q, fifo>>
Read == \E k \in Nums, l \in BOOLEAN : Step("read") /\ w' = ReadEnd(w, Content(disk[k], l)) /\ UNCHANGED <<at, disk, q, fifo>>
Write == \E k \in Nums : Step("write") /\ disk' = [disk EXCEPT ![k] = Stored(w[1].c, 40)] /\ UNCHANGED <<w, at, q, fifo>>
Put == \E x \in 1..2 : Step("push") /\ q' = Push(q, x) /\ fifo' = (IF Len(fifo) < q.n THEN Append(fifo, x) ELSE fifo) /\ UNCHANGED <<w, at, disk>>
Take == Step("pop") /\ q' = Pop(q) /\ fifo' = (IF fifo = <<>> THEN fifo ELSE Tail(fifo)) /\ UNCHANGED <<w, at, disk>>
Window == Next1 \/ Prev1 \/ Read \/ Write
Queue == Put \/ Take
Next == Window \/ Queue
Spec == Init /\ [][Next]_vars

Mod(a, n) == a % n
(* no frame is lost, doubled or moved by anything but steps: all is a rotation   *)
Rotation == \A i \in 1..Len(w) : w[i].id = Mod(at + i - 1, Len(w)) + 1
ThereAndBack == Forward(Back(w)) = w /\ Back(Forward(w)) = w
RECURSIVE Times(_, _)
Times(k, x) == IF k = 0 THEN x ELSE Times(k - 1, Forward(x))
Round == Times(Len(w), w) = w
Faithful == Items(q) = fifo /\ (fifo # <<>> => Popped(q) = fifo[1]) /\ (fifo = <<>> => Popped(q) = 0)
OnlyEnd == [][last' = "read" => \A i \in 1..(Len(w) - 1) : w'[i] = w[i]]_vars
ReadBack == [][last' = "write" => \E k \in Nums : Content(disk'[k], TRUE) = w[1].c]_vars
=============================================================================
