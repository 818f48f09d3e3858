--------------------------- MODULE TraceAccessors ---------------------------
(* Decides recorded histories of parameter objects, targets and path data.      *)
(*  t = "history": kind, ops in order; o.all: after it, every object's fields    *)
(*      new o | make o fields vals | set o name vals (setter) | put o field vals *)
(*      (plain assignment) | get o name vals | refuse o res | cmp a b res        *)
(*      candidate o fit nr | reset o                                             *)
(*  t = "sort": keys given, ids; out: ids after sorting; same: the given list    *)
(*      holds what it held (or is the one that was to be sorted in place)        *)
(*  t = "corres": a, b: rows (numbers as strings); res                           *)
(*  t = "frame": p: positions, c: target of each particle per camera (0 none),   *)
(*      tg: positions of the targets; got: positions(), cams: per camera         *)
EXTENDS Accessors, Records

None == [target |-> [pnr |-> "-999", tnr |-> "-1"],
         recognition |-> [discont |-> "100", nnmax |-> "100", nxmax |-> "100", nymax |-> "100", sumg_min |-> "10"],
         path |-> [prev_frame |-> "-1", next_frame |-> "-2", prio |-> "2"]]
Fresh(k) == LET s == Start("0", "1", None) IN IF k = "control" THEN s.control @@ InControl(s.media) ELSE s[k]
OrderOf(k) == Order[k]
NrObjects == 4
Effect(k, s, o) ==
    CASE o.op = "new" -> [s EXCEPT ![o.o] = Fresh(k)]
      [] o.op = "make" -> [s EXCEPT ![o.o] = Put(Fresh(k), IF o.named THEN o.fields ELSE SubSeq(OrderOf(k), 1, Len(o.vals)), o.vals)]
      [] o.op = "set" -> [s EXCEPT ![o.o] = Put(@, Setters[k][o.name], o.vals)]
      [] o.op = "put" -> [s EXCEPT ![o.o] = Put(@, << o.field >>, o.vals)]
      [] o.op = "candidate" -> [s EXCEPT ![o.o] = Candidate(@, o.fit, o.nr)]
      [] o.op = "reset" -> [s EXCEPT ![o.o] = NoLinks(@, None.path)]
      [] OTHER -> s
Shown(o, s) == \A c \in 1..Len(o.all) : DOMAIN o.all[c] = DOMAIN s[c] /\ Equal(s[c], o.all[c])
Fails(k, o, s) ==
    (IF Shown(o, s) THEN {}
     ELSE {CASE o.op = "set" -> "setter-changes-other-or-wrong-field" [] o.op \in {"make", "new"} -> "wrong-when-made"
             [] o.op = "candidate" -> "candidate-registered-wrong" [] o.op = "reset" -> "links-reset-wrong"
             [] OTHER -> "changed-by-" \o o.op})
    \cup (CASE o.op = "cmp" -> IF o.res = (IF Equal(s[o.a], s[o.b]) THEN "T" ELSE "F") THEN {} ELSE {"comparison-wrong"}
            [] o.op = "get" -> IF o.err = "" /\ Shows(s[o.o], IF o.name = "get_img_base_name" THEN << >> ELSE Getters[k][o.name], o.vals) THEN {} ELSE {"getter-shows-other-value"}
            [] o.op = "name" -> IF o.err = "" /\ o.val = s[o.o].img_base_name[o.cam] THEN {} ELSE {"getter-shows-other-value"}
            [] o.op = "refuse" -> IF o.err # "" THEN {} ELSE {"unequal-lengths-accepted"}
            [] OTHER -> IF o.err = "" THEN {} ELSE {o.op \o "-fails"})
RECURSIVE Replay(_, _, _, _, _)
Replay(k, ops, i, s, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET t == TLCEval(Effect(k, s, ops[i])) IN Replay(k, ops, i + 1, t, acc \cup Fails(k, ops[i], t))

Positions(q) == 1..Len(q)
SortFails(r) ==
    (IF Len(r.out) = Len(r.ids) /\ { r.out[i] : i \in Positions(r.out) } = { r.ids[i] : i \in Positions(r.ids) }
     THEN LET KeyOf(x) == r.keys[CHOOSE i \in Positions(r.ids) : r.ids[i] = x] IN
          IF \A i \in 1..(Len(r.out) - 1) : KeyOf(r.out[i]) <= KeyOf(r.out[i + 1]) THEN {} ELSE {"not-sorted"}
     ELSE {"sorting-loses-or-repeats"})
    \cup (IF r.same THEN {} ELSE {"sorting-changes-elements"})
CorresFails(r) == IF r.res = (IF r.a = r.b THEN "T" ELSE "F") THEN {} ELSE {"comparison-wrong"}
FrameFails(r) ==
    (IF r.err = "" THEN {} ELSE {"frame-view-fails"})
    \cup (IF r.got = r.p THEN {} ELSE {"positions-of-particles-wrong"})
    \cup (IF \A c \in 1..Len(r.cams) : Len(r.cams[c]) = Len(r.p) /\ \A i \in 1..Len(r.p) :
             r.cams[c][i] = (IF r.c[c][i] = 0 THEN << "nan", "nan" >> ELSE r.tg[c][r.c[c][i]])
          THEN {} ELSE {"targets-of-particles-wrong"})
    \cup (IF r.same THEN {} ELSE {"view-changes-the-frame"})
Failures(r) == CASE r.t = "history" -> Replay(r.kind, r.ops, 1, [o \in 1..NrObjects |-> Fresh(r.kind)], {})
                 [] r.t = "sort" -> SortFails(r)
                 [] r.t = "corres" -> CorresFails(r)
                 [] r.t = "frame" -> FrameFails(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
