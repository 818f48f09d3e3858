-------------------------- MODULE MCCorrespondence --------------------------
(* The matching as a state machine: the best rated possible match of the       *)
(* current size whose targets are free is taken (any of several equally good), *)
(* then the next smaller size follows.  Every run ends in a legal result.       *)
EXTENDS Correspondence, TLC, Randomization
CONSTANTS NC, N, Accept, Flags, Samples, Salts
Acc == <<3, 2>>
VARIABLES sit, stage, chosen
vars == <<sit, stage, chosen>>

Edges == { e \in (1..NC) \X (1..N) \X (1..NC) \X (1..N) : e[1] < e[3] }
\* ratings and distances that vary over the edges
Corr(e, salt) == 1 + Mod(e[1] * 3 + e[2] * 5 + e[3] * 7 + e[4] * 2 + salt * e[2] * e[4] + salt, 4)
Dist(e, salt) == 1 + Mod(e[1] + e[2] * 2 + e[3] + e[4] * 3 + salt * e[1], 2)
Lists(G, salt) ==
    [a \in 1..NC |-> [b \in 1..NC |-> [i \in 1..N |->
        LET js == { j \in 1..N : <<a, i, b, j>> \in G }
            order == SetToSortSeq(js, <)
        IN [k \in 1..Len(order) |-> LET e == <<a, i, b, order[k]>> IN << order[k], Corr(e, salt), Dist(e, salt) >>]]]]
Graphs == IF Samples = 0 THEN SUBSET Edges ELSE RandomSetOfSubsets(Samples, (3 * Cardinality(Edges)) \div 5, Edges)
Init == /\ \E G \in Graphs, f \in Flags, salt \in Salts :
             sit = [ nc |-> NC, cnt |-> [k \in 1..NC |-> N], flag |-> f, L |-> Lists(G, salt), acc |-> Accept, tol |-> 0 ]
        /\ stage = NC /\ chosen = <<>>
Free == { m \in Possible(sit, stage) : \A i \in 1..Len(chosen) : ~Share(chosen[i], m) }
Take == /\ stage >= 2
        /\ \E m \in Free : /\ \A o \in Free : ~Above(Rating(sit, o), Rating(sit, m))
                           /\ chosen' = Append(chosen, m)
        /\ UNCHANGED <<sit, stage>>
Down == /\ stage >= 2 /\ Free = {} /\ stage' = stage - 1 /\ UNCHANGED <<sit, chosen>>
Spec == Init /\ [][Take \/ Down]_vars
EndLegal == stage = 1 => Legal(sit, chosen)
AlwaysExclusive == Shared(chosen) = {} /\ Unsupported(sit, chosen) = {} /\ OutOfOrder(sit, chosen) = {}
\* the judgement tells a result with a match removed from a complete one
Sensitive == stage = 1 /\ chosen # <<>> => ~Legal(sit, Tail(chosen))
=============================================================================
