--------------------------------- MODULE Ring ---------------------------------
(* The frame buffer: a window of frames that steps along a sequence, and the    *)
(* same store used as a queue.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- as a window: w is the sequence of its frames, the first is the earliest *)
Forward(w) == IF w = <<>> THEN w ELSE Append(Tail(w), w[1])
Back(w) == IF w = <<>> THEN w ELSE <<w[Len(w)]>> \o SubSeq(w, 1, Len(w) - 1)
ReadEnd(w, content) == [w EXCEPT ![Len(w)] = [@ EXCEPT !.c = content]]
(* what the files of a number hold: particles, links, targets                   *)
Content(d, links) == [parts |-> d.parts, links |-> IF links THEN d.links ELSE d.plain, targets |-> d.targets]
Stored(c, plain) == [parts |-> c.parts, links |-> c.links, plain |-> plain, targets |-> c.targets]

(* ---- as a queue: slots 0..n-1, a head and a number of items                   *)
NewQueue(n) == [slot |-> [i \in 0..(n - 1) |-> 0], head |-> 0, size |-> 0, n |-> n]
Push(q, x) == IF q.size < q.n THEN [q EXCEPT !.slot[(q.head + q.size) % q.n] = x, !.size = @ + 1] ELSE q
Popped(q) == IF q.size > 0 THEN q.slot[q.head] ELSE 0
Pop(q) == IF q.size > 0 THEN [q EXCEPT !.head = (@ + 1) % q.n, !.size = @ - 1] ELSE q
Items(q) == [i \in 1..q.size |-> q.slot[(q.head + i - 1) % q.n]]
=============================================================================
