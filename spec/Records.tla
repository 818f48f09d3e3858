------------------------------- MODULE Records -------------------------------
(* Deciding recorded behaviour of the implementation: one record per public    *)
(* call (or per sequence of calls).  A module that extends this one defines    *)
(* Failures(r), the set of names of the clauses that record r breaks.  Every   *)
(* record becomes one state; the verdict is total (a broken clause is printed, *)
(* it does not stop the run).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)
Chunk == atoi(IOEnv.CHUNK)

VARIABLE pos
RecInit == pos \in { c * Chunk + 1 : c \in 0..((NRecs - 1) \div Chunk) }
RecNext == /\ pos % Chunk # 0
           /\ pos < NRecs
           /\ pos' = pos + 1
RecSpec == RecInit /\ [][RecNext]_pos

Report(fs) == \A c \in fs : PrintT("FAIL " \o ToString(pos) \o " " \o c)
=============================================================================
