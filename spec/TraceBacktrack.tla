--------------------------- MODULE TraceBacktrack ---------------------------
(* Decides recorded backward runs.  r.same[f]: particles (position, targets,   *)
(* priority) as before; r.mean: what the run returned, thousandths; r.tsame: targets as before; r.strays: other files.     *)
EXTENDS Backtrack, Records

N(r) == Len(r.before)
LinksKept(r) == \A f \in 1..N(r) : \A i \in 1..Len(r.before[f]) :
    /\ r.before[f][i][1] # -1 => r.after[f][i][1] = r.before[f][i][1]
    /\ r.before[f][i][2] # -2 => r.after[f][i][2] = r.before[f][i][2]
AllMutual(r) == \A f \in 1..N(r) : \A i \in 1..Len(r.after[f]) :
    /\ r.after[f][i][2] # -2 => /\ f < N(r)
                                /\ r.after[f][i][2] + 1 \in 1..Len(r.after[f + 1])
                                /\ r.after[f + 1][r.after[f][i][2] + 1][1] = i - 1
    /\ r.after[f][i][1] # -1 => /\ f > 1
                                /\ r.after[f][i][1] + 1 \in 1..Len(r.after[f - 1])
                                /\ r.after[f - 1][r.after[f][i][1] + 1][2] = i - 1
\* links << f, h, m >> that backward tracking made
NewLinks(r) == { << f, h, m >> \in UNION { { << f, h, r.after[f][h + 1][1] >> : h \in 0..(Len(r.after[f]) - 1) } : f \in 2..N(r) } :
                 m # -1 /\ r.before[f][h + 1][1] = -1 }
LinkFailures(r, f, h, m) ==
    (IF f < N(r) /\ r.after[f][h + 1][2] # -2 THEN {} ELSE {"start-of-link"})
    \cup (IF r.before[f - 1][m + 1][2] = -2 THEN {} ELSE {"end-of-link"})
    \cup (IF f < N(r) /\ r.after[f][h + 1][2] # -2
          THEN LET g == CHOOSE e \in GeoOf(r, f, h) : TRUE IN
               IF CandidatesUnsure(r, f, g) THEN {}
               ELSE IF m \notin { w[1] : w \in ToSet(Candidates(r, f, g)) } THEN {"link-beyond-limits"}
               ELSE LET D == g.m[m + 1] IN
                    IF ReachUnsure(r, D) \/ FitsUnsure(r, f, g, m) THEN {}
                    ELSE IF InReach(r, D) /\ FitsBack(r, f, g, m) THEN {} ELSE {"link-beyond-limits"}
          ELSE {})
\* a particle whose predecessor is still missing although the one it wants is free to the end
GapFailures(r, f, g) ==
    IF GapUnsure(r, f, g) THEN {"-"}
    ELSE LET reg == Rated(r, f, g)
             m == IF reg = {} THEN -1 ELSE Best(reg)[2]
         IN IF m = -1 \/ FitsUnsure(r, f, g, m) THEN {}
            ELSE IF r.after[f][g.h + 1][1] = -1
            THEN IF FitsBack(r, f, g, m) /\ r.after[f - 1][m + 1][2] = -2 THEN {"gap-not-closed"} ELSE {}
            ELSE IF r.after[f][g.h + 1][1] # m THEN {"not-the-best"} ELSE {}
\* the mean number of particles with a predecessor, over the frames between
\* the first and the last
MeanLinks(r) == LET all == FoldFunction(+, 0, [f \in 2..(N(r) - 1) |->
                             Cardinality({ i \in 1..Len(r.after[f]) : r.after[f][i][1] # -1 })])
                    n == Max({1, N(r) - 2})
                IN r.mean * n >= 1000 * all - n /\ r.mean * n <= 1000 * all + n
Failures(r) ==
    IF r.err # "" THEN {"failed"}
    ELSE (IF \A f \in 1..N(r) : r.same[f] THEN {} ELSE {"particles-changed"})
         \cup (IF r.tsame THEN {} ELSE {"targets-changed"})
         \cup (IF r.strays = <<>> THEN {} ELSE {"other-file-written"})
         \cup IF \E f \in 1..N(r) : ~r.same[f] THEN {}
              ELSE IF ~LinksKept(r) THEN {"link-lost"}
              ELSE IF ~AllMutual(r) THEN {"link-not-mutual"}
              ELSE (IF MeanLinks(r) THEN {} ELSE {"mean-links"}) \cup
                   UNION { LinkFailures(r, l[1], l[2], l[3]) : l \in NewLinks(r) }
                   \cup UNION { UNION { GapFailures(r, f, g) : g \in ToSet(r.geo[f]) } : f \in 2..N(r) - 1 }
Inv == LET f == Failures(Recs[pos]) IN Report(f \ {"-"}) /\ ("-" \in f => PrintT("INFO undecided"))
=============================================================================
