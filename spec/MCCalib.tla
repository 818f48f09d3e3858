------------------------------ MODULE MCCalib ------------------------------
(* Two calibrations and two pairs of files: every short history of setting,    *)
(* writing and reading.                                                        *)
EXTENDS Calib, TLC, FiniteSets
CONSTANTS MaxSteps
VARIABLES cal, ori, add, steps, did
vars == << cal, ori, add, steps, did >>
Objects == {1, 2}
Vals(p) == { [i \in 1..Size(p) |-> v] : v \in {0, 2} } \cup { [i \in 1..Size(p) |-> i] }
Nothing == << >>
Init == /\ cal = [o \in Objects |-> Fresh(0, 1)]
        /\ ori = [o \in Objects |-> Nothing] /\ add = [o \in Objects |-> Nothing]
        /\ steps = 0 /\ did = << "none" >>
DoSet == \E o \in Objects, p \in Parts \cup {"added"} : \E v \in Vals(p) :
            cal' = [cal EXCEPT ![o] = Set(@, p, v)] /\ did' = << "set", o, p, v >> /\ UNCHANGED << ori, add >>
DoWrite == \E o, f \in Objects, both \in BOOLEAN :
            /\ ori' = [ori EXCEPT ![f] = OriOf(cal[o])]
            /\ add' = IF both THEN [add EXCEPT ![f] = AddOf(cal[o])] ELSE add
            /\ did' = << "write", o, f, both >> /\ UNCHANGED cal
DoRead == \E o, f \in Objects, both \in BOOLEAN :
            /\ ori[f] # Nothing /\ (both => add[f] # Nothing)
            /\ cal' = [cal EXCEPT ![o] = FromFiles(ori[f], IF both THEN add[f] ELSE NoAdd(0, 1))]
            /\ did' = << "read", o, f, both >> /\ UNCHANGED << ori, add >>
DoCopy == \E o, b \in Objects : o # b /\ cal' = [cal EXCEPT ![o] = cal[b]] /\ did' = << "copy", o, b >> /\ UNCHANGED << ori, add >>
CopyIsEqual == did[1] = "copy" => Same(cal[did[2]], cal[did[3]])
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (DoSet \/ DoWrite \/ DoRead \/ DoCopy)
Spec == Init /\ [][Next]_vars
MatrixBelongs == \A o \in Objects : cal[o].mat = cal[o].ang
OnlyItsPart == [][\A o \in Objects, p \in Parts : cal'[o][p] # cal[o][p] =>
                    /\ did'[2] = o
                    /\ did'[1] = "set" => did'[3] = p \/ (did'[3] = "added" /\ p \in {"rad", "dec", "aff"})]_vars
RoundTrip == did[1] = "write" =>
    LET c == FromFiles(ori[did[3]], IF did[4] THEN add[did[3]] ELSE NoAdd(0, 1)) IN
    /\ did[4] => Same(c, cal[did[2]])
    /\ Same(c, [cal[did[2]] EXCEPT !.rad = c.rad, !.dec = c.dec, !.aff = c.aff])
SameIsEquality == (Same(cal[1], cal[2]) <=> cal[1] = cal[2]) /\ (Same(cal[1], cal[2]) <=> Same(cal[2], cal[1]))
\* the matrices are orthogonal and turn to the right
Angles == { << 1, 0, 1 >>, << 0, 1, 1 >>, << -1, 0, 1 >>, << 3, 4, 5 >>, << 4, -3, 5 >>, << -5, 12, 13 >> }
ASSUME \A o, p, k \in Angles :
    LET r == TLCEval(Rotation(o, p, k)) d == o[3] * p[3] * k[3] IN
    Times(r, Transposed(r)) = Diagonal(d * d) /\ (d < 300 => Det(r) = d * d * d)
=============================================================================
