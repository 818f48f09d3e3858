------------------------------ MODULE MCParams ------------------------------
(* The layouts are sound: each field has one line, and what is written is read *)
(* back; changing one line changes one field; a file that is cut is noticed.   *)
EXTENDS ParamFiles
CONSTANTS MaxCams, MaxChanges
VARIABLES kind, n, lines, obj, cut
vars == << kind, n, lines, obj, cut >>
V(i) == "v" \o ToString(i)
Init == /\ kind \in Kinds
        /\ n \in 1..MaxCams
        /\ obj = [f \in Fields(kind, n) |-> V(Place(Layout(kind, n), f))] @@ Preset(kind)
        /\ lines = Write(kind, n, obj)
        /\ cut = FALSE
Change == /\ ~cut
          /\ \E i \in 1..Len(lines) : lines[i] # "w" /\ lines' = [lines EXCEPT ![i] = "w"]
          /\ obj' = [f \in DOMAIN obj |-> IF f \in Fields(kind, n) /\ lines'[Place(Layout(kind, n), f)] = "w" THEN "w" ELSE obj[f]]
          /\ UNCHANGED << kind, n, cut >>
CutOff == ~cut /\ \E k \in 0..Len(lines) - 1 : lines' = SubSeq(lines, 1, k) /\ cut' = TRUE /\ UNCHANGED << kind, n, obj >>
Extend == ~cut /\ kind \notin {"ori", "addpar"} /\ Len(lines) = Len(Layout(kind, n)) /\ lines' = Append(lines, "x")
          /\ UNCHANGED << kind, n, obj, cut >>
Next == Change \/ CutOff \/ Extend
Spec == Init /\ [][Next]_vars
Few == Cardinality({ i \in 1..Len(lines) : lines[i] = "w" }) <= MaxChanges
OneLineEach == \A f \in Fields(kind, n) : Cardinality({ i \in 1..Len(Layout(kind, n)) : Layout(kind, n)[i] = f }) = 1
ReadsBack == IF Len(lines) < Len(Layout(kind, n)) THEN Read(kind, n, lines) = Error ELSE Read(kind, n, lines) = Gives(obj)
WritesBack == ~cut /\ Len(lines) = Len(Layout(kind, n)) => LET w == Write(kind, n, obj) IN
    \A i \in 1..Len(w) : Layout(kind, n)[i] # "-" => w[i] = lines[i]
=============================================================================
