------------------------- MODULE TraceCorrespondence -------------------------
(* Decides recorded matching runs.                                             *)
(* r.s     the situation, as in Correspondence                                 *)
(* r.ms    the matches in the order chosen (targets from 1, 0 = none)          *)
(* kind "full": one run of the whole correspondence search                     *)
(*   r.pnr[c][k]  identifier of the k-th target of camera c in sorted order    *)
(*   r.blocks     number of matches per result block, r.total the total        *)
(*   r.ids[c][m]  identifiers returned, r.posok[c][m] 1 position of that       *)
(*                target, 0 marked unused, -1 anything else                    *)
(*   r.tnr[c]     number found in each target afterwards (by identifier)       *)
(* kind "stage": candidates proposed by one stage for a given set of used ones *)
(* kind "take": a selection from a given list                                  *)
(* kind "single": a single camera                                              *)
EXTENDS Correspondence, Records

MatchFailures(s, ms) ==
    (IF Unsupported(s, ms) = {} THEN {} ELSE {"unsupported"})
    \cup (IF PoorlyRated(s, ms) = {} /\ AtLimit(s, ms) = {} THEN {} ELSE {"rated-too-low"})
    \cup (IF Ambiguous(s, ms) = {} THEN {} ELSE {"pair-with-several-candidates"})
    \cup (IF Shared(ms) = {} THEN {} ELSE {"target-in-two-matches"})
    \cup (IF SmallerThanWanted(s, ms) = {} THEN {} ELSE {"smaller-than-wanted"})
    \cup (IF OutOfOrder(s, ms) = {} THEN {} ELSE {"order"})
    \cup (IF Unsupported(s, ms) = {} /\ LeftOut(s, ms) # {} THEN {"possible-match-left-out"} ELSE {})

Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
BlockOf(r, i) == Min({ b \in 1..Len(r.blocks) : i <= Sum(SubSeq(r.blocks, 1, b)) })
\* the match the identifiers stand for
Decoded(r, i) == [c \in 1..r.s.nc |->
    IF r.ids[c][i] = -1 THEN 0
    ELSE IF \E k \in 1..r.s.cnt[c] : r.pnr[c][k] = r.ids[c][i]
         THEN CHOOSE k \in 1..r.s.cnt[c] : r.pnr[c][k] = r.ids[c][i] ELSE -1]

FullFailures(r) ==
    LET n == Sum(r.blocks)
        dec == [i \in 1..n |-> Decoded(r, i)]
        \* the number each target should carry
        want(c, id) == IF \E i \in 1..n : r.ids[c][i] = id
                       THEN (CHOOSE i \in 1..n : r.ids[c][i] = id) - 1 ELSE -1
    IN  MatchFailures(r.s, dec)
        \cup (IF r.total = n THEN {} ELSE {"total"})
        \cup (IF Len(r.blocks) = r.s.nc - 1 THEN {} ELSE {"blocks"})
        \cup (IF \A i \in 1..n : Size(dec[i]) = r.s.nc + 1 - BlockOf(r, i) THEN {} ELSE {"match-in-wrong-block"})
        \cup (IF \A i \in 1..n, c \in 1..r.s.nc : dec[i][c] # -1 THEN {} ELSE {"no-such-target"})
        \cup (IF \A i \in 1..n, c \in 1..r.s.nc : r.posok[c][i] = (IF r.ids[c][i] = -1 THEN 0 ELSE 1)
              THEN {} ELSE {"position"})
        \cup (IF \A c \in 1..r.s.nc : \A k \in 1..Len(r.tnr[c]) :
                    LET w == want(c, r.tnr[c][k][1]) IN
                    \/ r.tnr[c][k][2] = w
                    \* a target in two matches cannot carry both numbers
                    \/ Cardinality({ i \in 1..n : r.ids[c][i] = r.tnr[c][k][1] }) > 1
              THEN {} ELSE {"target-number"})
        \cup (IF r.direct = dec THEN {} ELSE {"result-differs-from-matches"})
        \cup (IF r.unchanged THEN {} ELSE {"arguments-changed"})

\* all proposals of a stage: each allowed one once, none with a used target
StageFailures(r) ==
    LET s == r.s
        used(m) == \E c \in 1..s.nc : m[c] # 0 /\ r.used[c][m[c]] # 0
        want == { m \in CliquesOfSize(s, r.size) : PairUnique(s, m) /\ Above(Rating(s, m), s.acc) /\ ~used(m) }
        got == { r.ms[i] : i \in 1..Len(r.ms) }
    IN  (IF \A m \in got : Supported(s, m) THEN {} ELSE {"unsupported"})
        \cup (IF \A m \in got : Supported(s, m) => Above(Rating(s, m), s.acc) THEN {} ELSE {"rated-too-low"})
        \cup (IF \A m \in got : Supported(s, m) => PairUnique(s, m) THEN {} ELSE {"pair-with-several-candidates"})
        \cup (IF \A m \in got : ~ (InRange(s, m) /\ used(m)) THEN {} ELSE {"target-in-two-matches"})
        \cup (IF want \subseteq got THEN {} ELSE {"possible-match-left-out"})
        \cup (IF Cardinality(got) = Len(r.ms) THEN {} ELSE {"proposed-twice"})
        \cup (IF \A i \in 1..Len(r.ms) : Supported(s, r.ms[i]) =>
                 LET q == Rating(s, r.ms[i])          \* r.corr in thousandths
                 IN q[2] = 0 \/ Abs(r.corr[i] * q[2] - 1000 * q[1]) <= 2 * q[2]
              THEN {} ELSE {"rating"})

\* a selection: r.src << match, rating >> in any order, r.ms chosen, r.used before and r.after
TakeFailures(r) ==
    LET n == Len(r.src)
        val(m) == CHOOSE i \in 1..n : r.src[i][1] = m
        isin(m) == \E i \in 1..n : r.src[i][1] = m
        busy(m) == \E c \in 1..Len(m) : m[c] # 0 /\ r.used[c][m[c]] # 0
        ch == r.ms
        marks(c, k) == r.used[c][k] + Cardinality({ i \in 1..Len(ch) : ch[i][c] = k })
    IN  (IF \A i \in 1..Len(ch) : isin(ch[i]) THEN {} ELSE {"unsupported"})
        \cup (IF \A i \in 1..Len(ch) : ~busy(ch[i]) THEN {} ELSE {"target-in-two-matches"})
        \cup (IF Shared(ch) = {} THEN {} ELSE {"target-in-two-matches"})
        \cup (IF \A i \in 1..(Len(ch) - 1) : isin(ch[i]) /\ isin(ch[i + 1]) =>
                    r.src[val(ch[i])][2] >= r.src[val(ch[i + 1])][2] THEN {} ELSE {"order"})
        \cup (IF \A i \in 1..n : \/ \E j \in 1..Len(ch) : ch[j] = r.src[i][1]
                                 \/ busy(r.src[i][1])
                                 \/ \E j \in 1..Len(ch) : /\ isin(ch[j]) /\ Share(ch[j], r.src[i][1])
                                                          /\ r.src[val(ch[j])][2] >= r.src[i][2]
              THEN {} ELSE {"possible-match-left-out"})
        \cup (IF r.count = Len(ch) THEN {} ELSE {"total"})
        \cup (IF \A c \in 1..Len(r.used) : \A k \in 1..Len(r.used[c]) : r.after[c][k] = marks(c, k)
              THEN {} ELSE {"usage-marks"})

SingleFailures(r) ==
    LET n == Len(r.pnr) IN
        (IF r.total = n /\ Len(r.ids) = n THEN {} ELSE {"total"})
        \cup (IF { r.ids[i] : i \in 1..Len(r.ids) } = { r.pnr[i] : i \in 1..n } THEN {} ELSE {"no-such-target"})
        \cup (IF \A i \in 1..Len(r.ids) : r.posok[i] = 1 THEN {} ELSE {"position"})
        \cup (IF \A k \in 1..Len(r.tnr) : \E i \in 1..Len(r.ids) :
                    r.ids[i] = r.tnr[k][1] /\ r.tnr[k][2] = i - 1 THEN {} ELSE {"target-number"})

Failures(r) == IF r.err # "" THEN {"failed"}
               ELSE IF r.kind = "full" THEN FullFailures(r)
               ELSE IF r.kind = "stage" THEN StageFailures(r)
               ELSE IF r.kind = "take" THEN TakeFailures(r)
               ELSE SingleFailures(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
