----------------------------- MODULE MCAccessors -----------------------------
(* Two objects of every kind: every short history of setting, registering,      *)
(* resetting.  The history variable holds what was last given for each field;   *)
(* getters show it, no two setters of a kind reach the same field by different   *)
(* orders of values, and equality is equality of everything that getters and     *)
(* fields show.                                                                  *)
EXTENDS Accessors
CONSTANTS MaxSteps
VARIABLES kind, obj, last, steps
vars == << kind, obj, last, steps >>
Nowhere == [target |-> [pnr |-> 7, tnr |-> 7], recognition |-> [discont |-> 7, nnmax |-> 7, nxmax |-> 7, nymax |-> 7, sumg_min |-> 7],
            path |-> [prev_frame |-> 7, next_frame |-> 8, prio |-> 9]]
Kinds == DOMAIN Order
Fresh(k) == LET s == Start(0, 1, Nowhere) IN IF k = "control" THEN s.control @@ InControl(s.media) ELSE s[k]
Objects == {1, 2}
IsList(f) == f \in {"n2", "d", "mm.n2", "mm.d", "img_base_name", "cal_img_base_name", "x_lay", "z_min_lay", "z_max_lay", "gvthresh"}
Vals(f) == IF IsList(f) THEN { << 2 >>, << 2, 3 >> } ELSE {2, 3}
RECURSIVE Args(_)
Args(fs) == IF fs = << >> THEN {<< >>} ELSE { << v >> \o r : v \in Vals(Head(fs)), r \in Args(Tail(fs)) }
Init == /\ kind \in Kinds /\ obj = [o \in Objects |-> Fresh(kind)] /\ last = obj /\ steps = 0
DoSet == \E o \in Objects, n \in DOMAIN Setters[kind] : LET fs == Setters[kind][n] IN
            /\ fs # << >>
            /\ \E a \in Args(fs) : /\ obj' = [obj EXCEPT ![o] = Put(@, fs, a)]
                                   /\ last' = [last EXCEPT ![o] = [f \in DOMAIN @ |-> IF \E i \in 1..Len(fs) : fs[i] = f THEN a[CHOOSE i \in 1..Len(fs) : fs[i] = f] ELSE @[f]]]
DoCandidate == /\ kind = "path"
               /\ \E o \in Objects, v \in {2, 3}, n \in {4, 5} : LET c == Candidate(obj[o], v, n) IN
                    obj' = [obj EXCEPT ![o] = c] /\ last' = [last EXCEPT ![o] = [@ EXCEPT !.inlist = @ + 1, !.decis = Append(@, v), !.linkdecis = Append(@, n)]]
DoReset == /\ kind = "path"
           /\ \E o \in Objects : LET c == NoLinks(obj[o], Nowhere.path) IN
                obj' = [obj EXCEPT ![o] = c] /\ last' = [last EXCEPT ![o] = [@ EXCEPT !.prev_frame = 7, !.next_frame = 8, !.prio = 9]]
DoLink == /\ kind = "path"
          /\ \E o \in Objects, f \in {"prev_frame", "next_frame", "prio"}, v \in {2, 3} :
                obj' = [obj EXCEPT ![o] = Put(@, << f >>, << v >>)] /\ last' = [last EXCEPT ![o][f] = v]
Next == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED kind /\ (DoSet \/ DoCandidate \/ DoReset \/ DoLink)
Spec == Init /\ [][Next]_vars
ShowsLast == \A o \in Objects, g \in DOMAIN Getters[kind] : LET fs == Getters[kind][g] IN
                Shows(obj[o], fs, [i \in 1..Len(fs) |-> last[o][fs[i]]])
FieldsStay == \A o \in Objects : DOMAIN obj[o] = DOMAIN Fresh(kind) /\ obj[o] = last[o]
EqualIsEqual == (Equal(obj[1], obj[2]) <=> obj[1] = obj[2]) /\ (Equal(obj[1], obj[2]) <=> Equal(obj[2], obj[1]))
OnlyOne == [][\E o \in Objects : obj'[o] = obj[o]]_vars
\* every field of a kind that setters name exists; no getter or setter names a field twice
Distinct(fs) == \A i, j \in 1..Len(fs) : i # j => fs[i] # fs[j]
ASSUME \A k \in Kinds : /\ \A n \in DOMAIN Setters[k] : Distinct(Setters[k][n]) /\ \A i \in 1..Len(Setters[k][n]) : Setters[k][n][i] \in DOMAIN Fresh(k)
                        /\ \A n \in DOMAIN Getters[k] : Distinct(Getters[k][n]) /\ \A i \in 1..Len(Getters[k][n]) : Getters[k][n][i] \in DOMAIN Fresh(k)
                        /\ { Order[k][i] : i \in 1..Len(Order[k]) } \subseteq DOMAIN Fresh(k)
=============================================================================
