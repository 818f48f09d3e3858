------------------------------ MODULE MCFollow ------------------------------
(* Particles on a line that move steadily and stay out of reach of each other     *)
(* come and go; they are followed by looking two frames ahead.  No step joins two *)
(* particles, and each step that Pipeline demands is found.  (Doubled places.)     *)
EXTENDS Pipeline, TLC
CONSTANTS Particles, Frames, Length, Speed, Reach, Turn, Apart
VARIABLES place, there, at, next, prev
vars == << place, there, at, next, prev >>
Ps == 1..Particles
Fs == 1..Frames
Abs(n) == IF n < 0 THEN -n ELSE n
Line == 0..Length
\* how a particle goes through all frames
Step(q) == \A f \in 1..(Frames - 1) : Abs(q[f + 1] - q[f]) <= Speed
Steady(q) == \A f \in 2..(Frames - 1) : Abs(q[f + 1] - 2 * q[f] + q[f - 1]) <= 1
Paths == { q \in [Fs -> Line] : Step(q) /\ Steady(q) }
FarFrom(q, r) == \A f \in Fs, g \in Fs : Abs(f - g) <= 2 => Abs(q[f] - r[g]) >= Apart
Init == /\ place \in { s \in [Ps -> Paths] : \A p \in Ps, r \in Ps : p < r => FarFrom(s[p], s[r]) /\ s[p][1] < s[r][1] }
        /\ there \in [Ps -> [Fs -> BOOLEAN]]
        /\ at = 1
        /\ next = [p \in Ps |-> [f \in Fs |-> 0]] /\ prev = [p \in Ps |-> [f \in Fs |-> 0]]
X(p, f) == 2 * place[p][f]
Here(f) == IF f > Frames THEN {} ELSE { p \in Ps : there[p][f] }
\* the search for what may follow p
Centre(p, f) == IF prev[p][f] = 0 THEN X(p, f) ELSE 2 * X(p, f) - X(prev[p][f], f - 1)
Candidates(p, f) == { q \in Here(f + 1) : Abs(X(q, f + 1) - Centre(p, f)) <= 2 * Reach }
Ahead(p, q, f) == IF prev[p][f] = 0 THEN 2 * X(q, f + 1) - X(p, f)
                  ELSE (5 * X(q, f + 1) - 4 * X(p, f) + X(prev[p][f], f - 1)) \div 2
GoesOn(p, q, f) == \E r \in Here(f + 2) :
    /\ Abs(X(r, f + 2) - Ahead(p, q, f)) <= 2 * Turn
    /\ Abs(X(r, f + 2) - X(q, f + 1)) <= 2 * Reach
ByMotion(p, q, f) == prev[p][f] # 0 /\ Abs(X(q, f + 1) - X(p, f)) <= 2 * Reach /\ Abs(X(q, f + 1) - Centre(p, f)) <= 2 * Turn
Choices(p, f) == LET ahead == { q \in Candidates(p, f) : GoesOn(p, q, f) } IN
                 IF ahead # {} THEN ahead ELSE { q \in Candidates(p, f) : ByMotion(p, q, f) }
\* one frame: each particle takes one of its choices, of those that take the same one is left
Track == /\ at < Frames
         /\ \E choice \in [Ps -> 0..Particles] :
              /\ \A p \in Ps : choice[p] \in (IF p \in Here(at) /\ Choices(p, at) # {} THEN Choices(p, at) ELSE {0})
              /\ \E win \in [Ps -> 0..Particles] :
                   /\ \A q \in Ps : LET w == { p \in Ps : choice[p] = q } IN win[q] \in (IF w = {} THEN {0} ELSE w)
                   /\ prev' = [q \in Ps |-> [prev[q] EXCEPT ![at + 1] = win[q]]]
                   /\ next' = [p \in Ps |-> [next[p] EXCEPT ![at] = IF choice[p] # 0 /\ win[choice[p]] = p THEN choice[p] ELSE 0]]
         /\ at' = at + 1
         /\ UNCHANGED << place, there >>
Spec == Init /\ [][Track]_vars
NothingWrong == \A p \in Ps, f \in Fs : next[p][f] \in {0, p} /\ prev[p][f] \in {0, p}
Mutual == \A p \in Ps, f \in 1..(Frames - 1) : (next[p][f] = p) = (prev[p][f + 1] = p)
Followed == \A p \in Ps, f \in 1..(at - 1) : Must(there[p], f) => next[p][f] = p
NoMore == \A p \in Ps, f \in 1..(at - 1) : next[p][f] = p => there[p][f] /\ there[p][f + 1] /\ Must(there[p], f)
=============================================================================
