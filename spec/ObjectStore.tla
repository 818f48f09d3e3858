----------------------------- MODULE ObjectStore -----------------------------
(* Objects that were made separately, changed one at a time and given to        *)
(* computations.  A value is opaque.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [k \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* nothing but the objects of s may differ                                       *)
Others(before, after, s) == \A i \in 1..Len(before) : i \notin s => after[i] = before[i]
(* a table of what is known: the first value seen of a key is the value of it    *)
Agrees(table, k, v) == k \notin DOMAIN table \/ table[k] = v
Learn(table, k, v) == IF k \in DOMAIN table THEN table ELSE With(table, k, v)
=============================================================================
