-------------------------- MODULE TraceObjectStore --------------------------
(* Decides recorded histories of objects and of computations.                   *)
(*  t = "objects": op new (kind), copy, change (on), give (on; the caller's      *)
(*    array must stay as it is: kept), caller (the caller changes an array that  *)
(*    it gave away before); all: every object after it; beyond: parts of the      *)
(*    changed object, other than the one that was changed, that changed too       *)
(*  t = "calls": each with the values of its arguments before and after, those   *)
(*    that may change, a key (function and arguments) and the result             *)
EXTENDS ObjectStore, Records

Touched(o) == IF o.op \in {"change", "give"} THEN {o.on} ELSE {}
OpFails(o, before, table) ==
    (IF Len(o.all) >= Len(before) /\ Others(before, o.all, Touched(o)) THEN {} ELSE {"other-object-changed-by-" \o o.op})
    \cup (IF o.err = "" THEN {} ELSE {o.op \o "-fails"})
    \cup (IF o.op = "new" /\ ~Agrees(table, o.kind, o.all[Len(o.all)]) THEN {"default-values-differ"} ELSE {})
    \cup (IF o.beyond = <<>> THEN {} ELSE {"change-reaches-other-parts"})
    \cup (IF o.op = "give" /\ ~o.kept THEN {"argument-changed"} ELSE {})
RECURSIVE Objects(_, _, _, _, _)
Objects(ops, i, before, table, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET o == ops[i] IN
         Objects(ops, i + 1, o.all, TLCEval(IF o.op = "new" THEN Learn(table, o.kind, o.all[Len(o.all)]) ELSE table),
                 acc \cup OpFails(o, before, table))
RECURSIVE Calls(_, _, _, _)
Calls(ops, i, table, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET o == ops[i]
             may == {o.may[j] : j \in 1..Len(o.may)}
         IN Calls(ops, i + 1, TLCEval(Learn(table, o.key, o.res)),
                  acc \cup (IF Others(o.before, o.after, may) THEN {} ELSE {"argument-changed-by-" \o o.call})
                      \cup (IF Agrees(table, o.key, o.res) THEN {} ELSE {"other-result-when-repeated-" \o o.call}))
Failures(r) == IF r.t = "objects" THEN Objects(r.ops, 1, <<>>, Empty, {})
               ELSE Calls(r.ops, 1, Empty, {})
Inv == Report(Failures(Recs[pos]))
=============================================================================
