---------------------------- MODULE TraceParams ----------------------------
(* Decides recorded reading, writing, conversion and comparison of parameters. *)
(*  t = "file": kind, n, missing, lines, damaged; got.err, got.val              *)
(*      a parameter file and what reading it returned                           *)
(*  t = "write": kind, n, obj; err, lines (of the file then), got (read again)  *)
(*  t = "same": kind, n, src; res: sequence of << what, value >>: the object     *)
(*      src was converted, every value must be equal to it                      *)
(*  t = "eq": a, b; res: sequence of << way of comparing, "T", "F" or "E" >>     *)
EXTENDS ParamFiles, Records

FileFailures(r) ==
    LET exp == IF r.missing THEN ReadMissing(r.kind) ELSE Read(r.kind, r.n, r.lines)
    IN IF exp.err THEN IF r.got.err THEN {} ELSE {IF r.missing THEN "missing-file-unnoticed" ELSE "damage-unnoticed"}
       ELSE IF r.got.err THEN {IF r.missing THEN "default-not-given" ELSE "not-read"}
       ELSE IF r.got.val = exp.val THEN {}
       ELSE {IF r.missing THEN "default-wrong" ELSE "field-wrong"}
WriteFailures(r) ==
    LET exp == Write(r.kind, r.n, r.obj) IN
    IF r.err # "" THEN {"not-written"}
    ELSE (IF r.got.err THEN {"written-not-read"} ELSE IF r.got.val = r.obj THEN {} ELSE {"written-differs"})
         \cup (IF r.lines = exp THEN {} ELSE {"lines-of-written-file"})
\* every field of the kind must be there, so that none is left out unnoticed
SameFailures(r) ==
    (IF (IF r.kind = "media" THEN {"nlay", "n1", "n2.1", "n3", "d.1"} ELSE Fields(r.kind, r.n) \cup DOMAIN Preset(r.kind))
           \subseteq DOMAIN r.src THEN {} ELSE {"field-missing"})
    \cup { r.res[i][1] : i \in { k \in 1..Len(r.res) : r.res[k][2] # r.src } }
EqFailures(r) ==
    LET eq == IF Equal(r.a, r.b) THEN "T" ELSE "F" IN
    { r.res[i][1] : i \in { k \in 1..Len(r.res) : r.res[k][2] # eq } }
Failures(r) == CASE r.t = "file" -> FileFailures(r)
                 [] r.t = "write" -> WriteFailures(r)
                 [] r.t = "same" -> SameFailures(r)
                 [] r.t = "eq" -> EqFailures(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
