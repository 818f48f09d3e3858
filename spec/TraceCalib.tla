----------------------------- MODULE TraceCalib -----------------------------
(* Decides recorded histories of calibrations.  Values are strings (the exact   *)
(* value of a number), except where noted.                                      *)
(*  t = "history": ops in order; o.all: after it, every calibration as its       *)
(*    getters show it (mats: the known angles whose matrix it has)               *)
(*      new o | set o part v | refuse o part res | refresh o                     *)
(*      write o ori add ("" for none) err | read o ori add err                   *)
(*      copy o b err (o becomes a copy of b)                                      *)
(*      cmp a b what res ("T", "F", "E")                                         *)
(*  t = "rot": o, p, k angles as whole triangles, m: 1000 * hypotenuses * matrix *)
(*  t = "round": dev: for each part the largest difference between the value and *)
(*      what was read from its file, in hundredths of the last place             *)
EXTENDS Calib, Records

Zero == "0.0"
One == "1.0"
WithFile(files, n, v) == [k \in DOMAIN files \cup {n} |-> IF k = n THEN v ELSE files[k]]
NewState == [cal |-> [o \in 1..4 |-> Fresh(Zero, One)], ori |-> [k \in {} |-> 0], add |-> [k \in {} |-> 0]]
Effect(s, o) ==
    CASE o.op = "new" -> [s EXCEPT !.cal[o.o] = Fresh(Zero, One)]
      [] o.op = "set" -> [s EXCEPT !.cal[o.o] = Set(@, o.part, o.v)]
      [] o.op = "copy" -> [s EXCEPT !.cal[o.o] = s.cal[o.b]]
      [] o.op = "refresh" -> [s EXCEPT !.cal[o.o] = Refresh(@)]
      [] o.op = "write" -> [s EXCEPT !.ori = WithFile(@, o.ori, OriOf(s.cal[o.o])),
                                     !.add = IF o.add = "" THEN @ ELSE WithFile(@, o.add, AddOf(s.cal[o.o]))]
      [] o.op = "read" -> [s EXCEPT !.cal[o.o] = FromFiles(s.ori[o.ori], IF o.add = "" THEN NoAdd(Zero, One) ELSE s.add[o.add])]
      [] OTHER -> s
PartsOf(what) == CASE what = "exterior" -> {"pos", "ang"} [] what = "interior" -> {"prim"} [] what = "glass" -> {"glass"}
                   [] what = "addpar" -> {"rad", "dec", "aff"} [] OTHER -> Parts
Shown(o, s) == \A c \in 1..Len(o.all) : \A p \in Parts : o.all[c][p] = s.cal[c][p]
Matrix(o, s) == \A c \in 1..Len(o.all) : \E i \in 1..Len(o.all[c].mats) : o.all[c].mats[i] = s.cal[c].mat
Fails(o, s) ==
    (IF Shown(o, s) THEN {}
     ELSE {CASE o.op = "set" -> "set-changes-other-or-wrong-part" [] o.op = "read" -> "read-differs" [] o.op = "copy" -> "copy-differs" [] OTHER -> "changed-by-" \o o.op})
    \cup (IF Matrix(o, s) THEN {} ELSE {"matrix-not-of-the-angles"})
    \cup (CASE o.op = "cmp" ->
               IF "ang" \in PartsOf(o.what) /\ (s.cal[o.a].mat # s.cal[o.a].ang \/ s.cal[o.b].mat # s.cal[o.b].ang) THEN {}
               ELSE IF o.res = (IF \A p \in PartsOf(o.what) : s.cal[o.a][p] = s.cal[o.b][p] THEN "T" ELSE "F") THEN {}
               ELSE {"comparison-wrong"}
            [] o.op \in {"set", "write", "read", "refresh", "new", "copy"} -> IF o.err = "" THEN {} ELSE {o.op \o "-fails"}
            [] o.op = "refuse" -> IF o.err # "" THEN {} ELSE {"wrong-shape-accepted"}
            [] OTHER -> {})
RECURSIVE Replay(_, _, _, _)
Replay(ops, i, s, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET t == TLCEval(Effect(s, ops[i])) IN Replay(ops, i + 1, t, acc \cup Fails(ops[i], t))

Close(a, b) == a - b <= 2 /\ b - a <= 2
RotFails(r) == LET m == Rotation(r.o, r.p, r.k) IN
    IF \A i, j \in 1..3 : Close(r.m[i][j], 1000 * m[i][j]) THEN {} ELSE {"rotation-matrix-wrong"}
RoundFails(r) == IF \A i \in 1..Len(r.dev) : r.dev[i] <= 51 THEN {} ELSE {"not-to-the-precision-of-the-file"}
Failures(r) == CASE r.t = "history" -> Replay(r.ops, 1, NewState, {})
                 [] r.t = "rot" -> RotFails(r)
                 [] r.t = "round" -> RoundFails(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
