-------------------------------- MODULE Files --------------------------------
(* What the result files of a frame and the target files of a camera hold and  *)
(* what reading makes of them.  A file is a sequence of lines, a line a        *)
(* sequence of numbers; a file that does not exist is Missing.                 *)
(*   targets   a line with their number, then << number, x, y, pixels, width,  *)
(*             height, grey sum, particle >> each                              *)
(*   particles a line with their number, then << index, x, y, z, target in     *)
(*             each of four cameras >> each                                    *)
(*   links     ..., << previous, next, x, y, z >>                              *)
(*   priorities ..., << previous, next, x, y, z, priority >>                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoFile == -7777777
Missing == << << NoFile >> >>
\* what reading gives
Error == [err |-> TRUE, rows |-> <<>>]
Gives(s) == [err |-> FALSE, rows |-> s]
Isin(f) == f # Missing
Counted(rows) == << << Len(rows) >> >> \o rows
Header(f) == Isin(f) /\ f # <<>> /\ Len(f[1]) = 1
Body(f) == SubSeq(f, 2, Len(f))
Whole(f, w) == \A i \in 1..Len(f) : Len(f[i]) = w

\* ------------------------------------------------------------- writing
TargetLines(ts) == Counted(ts)
ParticleLines(ps) == Counted([i \in 1..Len(ps) |-> << i >> \o ps[i].x \o ps[i].t])
LinkLines(ps) == Counted([i \in 1..Len(ps) |-> << ps[i].prev, ps[i].next >> \o ps[i].x])
PrioLines(ps) == Counted([i \in 1..Len(ps) |-> << ps[i].prev, ps[i].next >> \o ps[i].x \o << ps[i].prio >>])

\* ------------------------------------------------------------- reading
\* the targets of a file: as many as it promises, or an error
Targets(f) == IF ~Header(f) THEN Error
              ELSE LET n == f[1][1] IN
                   IF Len(f) < n + 1 \/ ~Whole(SubSeq(f, 2, n + 1), 8) THEN Error ELSE Gives(SubSeq(f, 2, n + 1))
\* particles, with the links and priorities if these files are named
Unread == << << NoFile >>, << NoFile >> >>                       \* stands for a file that is not named
Complete(f, n, w) == n = 0 \/ (Header(f) /\ Len(f) >= n + 1 /\ Whole(SubSeq(f, 2, n + 1), w))
NoPrev == -1
NoNext == -2
NoPrio == 4
Particles(rt, lk, pr) ==
    IF ~Isin(rt) \/ ~Isin(lk) \/ ~Isin(pr) THEN Gives(<<>>)
    ELSE IF ~Header(rt) THEN Error
    ELSE LET n == rt[1][1] IN
         IF Len(rt) # n + 1 \/ ~Whole(Body(rt), 8) THEN Error
         ELSE IF lk # Unread /\ ~Complete(lk, n, 5) THEN Error
         ELSE IF pr # Unread /\ ~Complete(pr, n, 6) THEN Error
         ELSE Gives([i \in 1..n |-> [ x |-> SubSeq(rt[i + 1], 2, 4), t |-> SubSeq(rt[i + 1], 5, 8),
                                prev |-> IF lk = Unread THEN NoPrev ELSE lk[i + 1][1],
                                next |-> IF lk = Unread THEN NoNext ELSE lk[i + 1][2],
                                prio |-> IF pr = Unread THEN NoPrio ELSE pr[i + 1][6] ]])
\* what reading must return for particles ps that were written
Expected(ps, links, prio) == [i \in 1..Len(ps) |->
    [ps[i] EXCEPT !.prev = IF links THEN @ ELSE NoPrev, !.next = IF links THEN @ ELSE NoNext,
                  !.prio = IF prio THEN @ ELSE NoPrio]]

\* ------------------------------------------------------------- damage
\* (a file may go on after the lines it promises: these are not modelled, and nobody reads them)
Cut(f, k) == SubSeq(f, 1, IF k < Len(f) THEN k ELSE Len(f))
Shortened(f, i) == IF i > Len(f) THEN f ELSE [f EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)]
Lengthened(f, i) == IF i > Len(f) THEN f ELSE [f EXCEPT ![i] = Append(@, 0)]
=============================================================================
