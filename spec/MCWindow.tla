------------------------------ MODULE MCWindow ------------------------------
(* The sliding window of four frames during forward and backward runs over     *)
(* frames First..Last: which frame lies where when a step is taken, and which  *)
(* frames are written.  A slot holds the number of a frame, 0 before anything  *)
(* has been read into it.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Starts

VARIABLES first, last, dir, slots, step, phase, written, reads
vars == << first, last, dir, slots, step, phase, written, reads >>
Len4 == 4
Forward(b) == [i \in 1..Len4 |-> b[(i % Len4) + 1]]
Backward(b) == [i \in 1..Len4 |-> b[((i + Len4 - 2) % Len4) + 1]]

Init == /\ first \in Starts
        /\ \E n \in 2..MaxLen : last = first + n - 1
        /\ dir \in {"forward", "backward"}
        /\ slots = << 0, 0, 0, 0 >>
        /\ step = 0
        /\ phase = "prime"
        /\ written = <<>>
        /\ reads = {}
ReadAtEnd(b, n) == [b EXCEPT ![Len4] = n]
\* three frames are read ahead, or four backwards
Primes == IF dir = "forward" THEN 3 ELSE 4
At(k) == IF dir = "forward" THEN first + k ELSE last - k
Exists(n) == n >= first /\ n <= last
Prime ==
    /\ phase = "prime"
    /\ IF step < Primes
       THEN /\ LET b == IF Exists(At(step)) THEN ReadAtEnd(slots, At(step)) ELSE slots IN slots' = Forward(b)
            /\ reads' = IF Exists(At(step)) THEN reads \cup {At(step)} ELSE reads
            /\ step' = step + 1
            /\ UNCHANGED phase
       ELSE /\ slots' = Backward(slots)
            /\ step' = IF dir = "forward" THEN first ELSE last - 1
            /\ phase' = "run"
            /\ UNCHANGED reads
    /\ UNCHANGED << first, last, dir, written >>
More == IF dir = "forward" THEN step < last ELSE step > first
Run ==
    /\ phase = "run"
    /\ More
    /\ LET b == Forward(slots)
           ahead == IF dir = "forward" THEN step + 3 ELSE step - 3
       IN /\ written' = Append(written, << step, b[1] >>)
          /\ IF (IF dir = "forward" THEN step < last - 2 ELSE step > first + 2)
             THEN slots' = ReadAtEnd(b, ahead) /\ reads' = reads \cup {ahead}
             ELSE slots' = b /\ UNCHANGED reads
    /\ step' = IF dir = "forward" THEN step + 1 ELSE step - 1
    /\ UNCHANGED << first, last, dir, phase >>
Finish ==
    /\ phase = "run"
    /\ ~More
    /\ slots' = Forward(slots)
    /\ written' = Append(written, << IF dir = "forward" THEN last ELSE first, slots'[1] >>)
    /\ phase' = "done"
    /\ UNCHANGED << first, last, dir, step, reads >>
Next == Prime \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

Sign == IF dir = "forward" THEN 1 ELSE -1
\* at a step, the slots hold the frame before, the frame itself and the two after it, as far as they exist
Window == (phase = "run" /\ More) => \A i \in 1..Len4 :
    LET n == step + Sign * (i - 2) IN Exists(n) => slots[i] = n
\* a slot that stands for a frame beyond the end holds something else: it must not be looked at
OwnContent == \A i \in 1..Len(written) : written[i][1] = written[i][2]
InOrder == \A i \in 1..Len(written) - 1 : written[i + 1][1] = written[i][1] + Sign
\* (backwards the last frame, to which nothing can be added, need not be written again)
Complete == phase = "done" =>
    { written[i][1] : i \in 1..Len(written) } = (IF dir = "forward" THEN first..last ELSE first..(last - 1))
    /\ Len(written) = Cardinality({ written[i][1] : i \in 1..Len(written) })
OnlyExisting == \A n \in reads : Exists(n)
=============================================================================
