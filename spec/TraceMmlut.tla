------------------------------ MODULE TraceMmlut ------------------------------
(* Decides recorded lookups.  t = "small": tables of whole numbers (over 64), exact; *)
(* "made": tables that were made for a camera: entries against a reference, lookups   *)
(* against the entries.  Values in 1e-6.                                              *)
EXTENDS Mmlut, Records
Bad(b, name) == IF b THEN {} ELSE {name}
AskFails(t, a) ==
    IF Inside(t, a.q) THEN Bad(Close(a.v, Scaled(Look16(t, a.q), 1024, 1000000), 2), "lookup-inside")
    ELSE IF OnLast(t, a.q) THEN Bad(a.none = 1 \/ Close(a.v, Scaled(Last16(t, a.q), 1024, 1000000), 2), "lookup-on-the-last-row")
    ELSE Bad(a.none = 1, "value-outside")
Failures(r) ==
    IF r.err # "" THEN {"raises"}
    ELSE IF r.t = "small" THEN UNION {AskFails(r.table, r.ask[i]) : i \in 1..Len(r.ask)}
    ELSE Bad(r.shape = 1, "size-of-table")
         \cup Bad(\A i \in 1..Len(r.nodes) : Close(r.nodes[i][1], r.nodes[i][2], 800), "entry-of-table")
         \cup Bad(\A i \in 1..Len(r.cover) : r.cover[i] = 1, "seen-point-outside-the-table")
         \cup Bad(\A i \in 1..Len(r.mix) : LET m == r.mix[i] IN Close(m.v, Mix(m.c[1], m.c[2], m.c[3], m.c[4], m.f) \div 16, 4), "lookup-inside")
Inv == Report(Failures(Recs[pos]))
=============================================================================
