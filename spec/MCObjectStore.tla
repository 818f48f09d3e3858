--------------------------- MODULE MCObjectStore ---------------------------
(* Objects live in cells.  In the specified store every object has a cell of    *)
(* its own.  Making, changing, copying objects and computing with them then     *)
(* keeps all separate; Shared = TRUE gives the store in which the objects of a  *)
(* kind may share a cell, in which the judgements below must fail.              *)
EXTENDS ObjectStore, TLC
CONSTANTS MaxObj, Depth, Shared
Kinds == {"a", "b"}
Values == 0..2
VARIABLES cell, mem, kind, defaults, results, steps, verdict
vars == <<cell, mem, kind, defaults, results, steps, verdict>>
View(c, m) == [i \in 1..Len(c) |-> m[c[i]]]
Init == /\ cell = <<>> /\ mem = <<>> /\ kind = <<>> /\ defaults = Empty /\ results = Empty /\ steps = 0
        /\ verdict = TRUE
Step == steps < Depth /\ steps' = steps + 1
New(k) == LET home == {cell[i] : i \in {j \in 1..Len(cell) : kind[j] = k}} IN
    /\ Step /\ Len(cell) < MaxObj
    /\ \E share \in (IF Shared THEN home ELSE {}) \cup {0} :
         /\ cell' = Append(cell, IF share = 0 THEN Len(mem) + 1 ELSE share)
         /\ mem' = IF share = 0 THEN Append(mem, 0) ELSE mem
    /\ kind' = Append(kind, k)
    /\ LET v == View(cell', mem') IN
       /\ verdict' = (verdict /\ Others(View(cell, mem), v, {}) /\ Agrees(defaults, k, v[Len(v)]))
       /\ defaults' = Learn(defaults, k, v[Len(v)])
    /\ UNCHANGED results
Change(i, x) ==
    /\ Step /\ mem' = [mem EXCEPT ![cell[i]] = x]
    /\ verdict' = (verdict /\ Others(View(cell, mem), View(cell, mem'), {i}))
    /\ UNCHANGED <<cell, kind, defaults, results>>
Copy(i) ==
    /\ Step /\ Len(cell) < MaxObj
    /\ cell' = Append(cell, Len(mem) + 1) /\ mem' = Append(mem, mem[cell[i]]) /\ kind' = Append(kind, kind[i])
    /\ verdict' = (verdict /\ Others(View(cell, mem), View(cell', mem'), {}))
    /\ UNCHANGED <<defaults, results>>
Compute(i) ==
    LET key == mem[cell[i]] res == (key * 2 + 1) % 3 IN
    /\ Step
    /\ verdict' = (verdict /\ Agrees(results, key, res))
    /\ results' = Learn(results, key, res)
    /\ UNCHANGED <<cell, mem, kind, defaults>>
Next == \/ \E k \in Kinds : New(k)
        \/ \E i \in 1..Len(cell) : \/ \E x \in Values : Change(i, x)
                                   \/ Copy(i)
                                   \/ Compute(i)
Spec == Init /\ [][Next]_vars
Separate == verdict
OwnCells == \A i, j \in 1..Len(cell) : i # j => cell[i] # cell[j]
=============================================================================
