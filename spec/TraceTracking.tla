---------------------------- MODULE TraceTracking ----------------------------
(* Decides recorded steps of forward tracking.                                 *)
(* What the step left behind: r.next[h], r.fin[h] (rating, millionths),        *)
(* r.prev2[m]; r.a2, r.a3: << x, y, particle >> per camera after the step;     *)
(* r.off: distance of added particles from where their targets put them.       *)
(* r.window: the four frames held what the files of their numbers say;         *)
(* r.vol0, r.box: the observed volume as set up, and what the images see of it. *)
(* r.counts: particles and links the run counted in this step.                 *)
(* r.kept: earlier particles have the position, targets and links they had.    *)
EXTENDS Tracking, Records

\* ---- links are mutual (whatever the candidates were)
Mutual(r) ==
    (IF \A h \in 1..Len(r.next) : r.next[h] = -2 \/ (r.next[h] >= 0 /\ r.next[h] < Len(r.prev2)
                                                   /\ r.prev2[r.next[h] + 1] = h - 1) THEN {} ELSE {"not-mutual"})
    \cup (IF \A m \in 1..Len(r.prev2) : r.prev2[m] = -1 \/ (r.prev2[m] >= 0 /\ r.prev2[m] < Len(r.next)
                                                          /\ r.next[r.prev2[m] + 1] = m - 1) THEN {} ELSE {"not-mutual"})

\* ---- what became of the targets
Owned(t, p) == [c \in 1..Len(t) |-> { i \in 1..Len(t[c]) : t[c][i][3] = p }]
Ownership(r, before, after, n, added) ==
    LET expect == [c \in 1..Len(before) |-> [i \in 1..Len(before[c]) |->
            LET own == { a \in 1..Len(added) : added[a][c] = i - 1 } IN
            IF own = {} THEN before[c][i]
            ELSE << before[c][i][1], before[c][i][2], n + Max(own) - 1 >>]]
    IN (IF after = expect THEN {} ELSE {"targets-changed"})
       \cup (IF r.add \/ added = <<>> THEN {} ELSE {"added-although-off"})
       \cup (IF \A a \in 1..Len(added) : Seen(added[a]) >= MinCams THEN {} ELSE {"added-from-one-camera"})
       \cup (IF \A a \in 1..Len(added) : \A c \in 1..Len(before) :
                   added[a][c] # -1 => /\ added[a][c] + 1 \in 1..Len(before[c])
                                       /\ ~Linked(before[c][added[a][c] + 1])
             THEN {} ELSE {"added-from-used-target"})
       \cup (IF \A a, b \in 1..Len(added) : a # b => \A c \in 1..Len(before) :
                   added[a][c] # -1 => added[a][c] # added[b][c] THEN {} ELSE {"added-from-used-target"})

\* ---- the step as specified
ByTheBook(r) ==
    LET st == Processed(r)
        und == TLCEval(Undecided(r, st))
        info == PrintT("INFO decided " \o ToString(Len(r.part) - Cardinality(und)) \o " of " \o ToString(Len(r.part)))
    IN IF ~info THEN {} ELSE IF st.fail # {} THEN st.fail
    ELSE UNION { LET obs == r.next[h]
                     links == { b[2] : b \in st.reg[h] }
                     best == Best(st.reg[h])
                     alone == ~\E g \in 1..Len(r.part) : g # h /\ Wants(st, g, best[2])
                     clear == und = {} /\ ~RivalUnsure(r, st, h)
                     taken == r.prev2[best[2] + 1] # -1
                 IN (IF obs # -2 /\ obs \notin links THEN {"inadmissible-link"} ELSE {})
                    \cup (IF obs = -2 /\ links # {} /\ ((alone /\ clear) \/ ~taken)
                          THEN {"admissible-continuation-missed"} ELSE {})
                    \cup (IF obs # -2 /\ obs \in links /\ obs # best[2] THEN {"not-the-best"} ELSE {})
                    \cup (IF links # {} /\ ~alone /\ clear /\ obs \in {-2, best[2]} /\ obs # Next2(st, h)
                          THEN {"wrong-winner"} ELSE {})
                    \cup (IF links # {} /\ (obs \in links \/ obs = -2) /\ ~Close(r.fin[h], best[1], RelMargin)
                          THEN IF \E o \in st.oth[h] : Close(r.fin[h], o, RelMargin)
                               THEN {"other-continuation-rated"} ELSE {"rating"} ELSE {})
               : h \in (1..Len(r.part)) \ und }

\* what the run counts: every particle, every link (those that were displaced
\* later in the step may count as well)
Counted(r) == LET links == Cardinality({ h \in 1..Len(r.next) : r.next[h] # -2 })
                  want == Cardinality({ h \in 1..Len(r.next) : r.fin[h] < 1000000000 })
              IN r.counts[1] = Len(r.next) /\ r.counts[2] >= links /\ r.counts[2] <= Max({links, want})

StepFailures(r) ==
    Mutual(r)
    \cup Ownership(r, r.t2, r.a2, r.n2, r.add2)
    \cup Ownership(r, r.t3, r.a3, r.n3, r.add3)
    \cup (IF \A b \in 1..6 : Close(r.vol0[b], r.box[b], 100) THEN {} ELSE {"observed-volume"})
    \cup (IF Counted(r) THEN {} ELSE {"counts"})
    \cup (IF r.kept THEN {} ELSE {"earlier-particles-changed"})
    \cup (IF r.off <= 5 THEN {} ELSE {"added-elsewhere"})
    \cup ByTheBook(r)

Failures(r) == IF r.err # "" THEN {"failed"} ELSE IF ~r.window THEN {"wrong-frames"} ELSE StepFailures(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
