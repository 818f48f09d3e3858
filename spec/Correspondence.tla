--------------------------- MODULE Correspondence ---------------------------
(* Matches over the candidate lists of camera pairs.                           *)
(*                                                                             *)
(* A situation s holds nc (cameras 1..nc), cnt (targets per camera), flag      *)
(* (all cameras wanted), L[a][b][i] for a < b: the candidates << j, corr,      *)
(* dist >> of target i of camera a in camera b, and acc = << num, den >>, the  *)
(* minimum rating.  Targets are numbered from 1; a match is a sequence with    *)
(* one entry per camera, 0 where it has no target.                             *)
(* tol: 0 for exact numbers, otherwise ratings closer than 1/tol are equal.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Wide

Cams(s) == 1..s.nc
Seen(m) == { k \in 1..Len(m) : m[k] # 0 }
Size(m) == Cardinality(Seen(m))
IsCand(s, a, i, b, j) == \E k \in 1..Len(s.L[a][b][i]) : s.L[a][b][i][k][1] = j
CandIdx(s, a, i, b, j) == CHOOSE k \in 1..Len(s.L[a][b][i]) : s.L[a][b][i][k][1] = j
PairsOf(m) == { p \in Seen(m) \X Seen(m) : p[1] < p[2] }
InRange(s, m) == \A k \in Seen(m) : m[k] \in 1..s.cnt[k]
Supported(s, m) == /\ InRange(s, m)
                   /\ \A p \in PairsOf(m) : IsCand(s, p[1], m[p[1]], p[2], m[p[2]])
\* the rating as a fraction << summed ratings, summed distances >>
Rating(s, m) ==
    FoldSet(LAMBDA p, acc : LET e == s.L[p[1]][p[2]][m[p[1]]][CandIdx(s, p[1], m[p[1]], p[2], m[p[2]])]
                            IN << acc[1] + e[2], acc[2] + e[3] >>,
            <<0, 0>>, PairsOf(m))
Cut(x, tol) == IF tol = 0 THEN x ELSE x - (x \div tol) - 1
\* fraction f above fraction g (a zero distance means an unlimited rating)
Above(f, g) == ProdLess(g[1], f[2], f[1], g[2])
SurelyAbove(f, g, tol) == Cut(f[1], tol) > 0 /\ Above(<<Cut(f[1], tol), f[2]>>, g)

PairUnique(s, m) == Size(m) = 2 =>
    \A p \in PairsOf(m) : Len(s.L[p[1]][p[2]][m[p[1]]]) = 1

Allowed(s, k) == IF s.flag = 0 THEN k \in 2..s.nc ELSE k = s.nc /\ k > 2
Js(s, a, i, b) == { s.L[a][b][i][k][1] : k \in 1..Len(s.L[a][b][i]) }

\* all supported matches over the given cameras, built up camera by camera
RECURSIVE Grow(_, _, _)
Grow(s, partial, cams) ==
    IF cams = {} THEN partial
    ELSE LET c == Min(cams)
             ext(m) == IF Seen(m) = {} THEN { [m EXCEPT ![c] = j] : j \in 1..s.cnt[c] }
                       ELSE LET a == Min(Seen(m)) IN
                            { [m EXCEPT ![c] = j] : j \in { j2 \in Js(s, a, m[a], c) :
                                                        \A b \in Seen(m) : IsCand(s, b, m[b], c, j2) } }
         IN Grow(s, UNION { ext(m) : m \in partial }, cams \ {c})
Over(s, cams) == Grow(s, { [k \in 1..s.nc |-> 0] }, cams)
CliquesOfSize(s, k) == UNION { Over(s, cs) : cs \in { c \in SUBSET Cams(s) : Cardinality(c) = k } }
\* the possible matches of size k
Possible(s, k) == IF ~Allowed(s, k) THEN {}
                  ELSE { m \in CliquesOfSize(s, k) : PairUnique(s, m) /\ Above(Rating(s, m), s.acc) }
SurelyPossible(s, k) ==
    IF ~Allowed(s, k) THEN {}
    ELSE { m \in CliquesOfSize(s, k) : PairUnique(s, m) /\ SurelyAbove(Rating(s, m), s.acc, s.tol) }

Share(m, n) == \E k \in 1..Len(m) : m[k] # 0 /\ m[k] = n[k]

(* Verdicts on a list of matches, given in the order chosen *)
Unsupported(s, ms) == { i \in 1..Len(ms) : ~Supported(s, ms[i]) }
PoorlyRated(s, ms) == { i \in 1..Len(ms) : Supported(s, ms[i]) /\ SurelyAbove(s.acc, Rating(s, ms[i]), s.tol) }
AtLimit(s, ms) == { i \in 1..Len(ms) : s.tol = 0 /\ Supported(s, ms[i]) /\ ~Above(Rating(s, ms[i]), s.acc) }
Ambiguous(s, ms) == { i \in 1..Len(ms) : Supported(s, ms[i]) /\ ~PairUnique(s, ms[i]) }
Shared(ms) == { p \in (1..Len(ms)) \X (1..Len(ms)) : p[1] < p[2] /\ Share(ms[p[1]], ms[p[2]]) }
SmallerThanWanted(s, ms) == { i \in 1..Len(ms) : s.flag # 0 /\ Size(ms[i]) < s.nc }
OutOfOrder(s, ms) == { i \in 1..(Len(ms) - 1) :
    \/ Size(ms[i]) < Size(ms[i + 1])
    \/ /\ Size(ms[i]) = Size(ms[i + 1]) /\ Supported(s, ms[i]) /\ Supported(s, ms[i + 1])
       /\ SurelyAbove(Rating(s, ms[i + 1]), Rating(s, ms[i]), s.tol) }
\* a possible match is left out only for one that is larger or rated as well
LeftOut(s, ms) ==
    LET chosen == { ms[i] : i \in 1..Len(ms) }
        good == { m \in chosen : Supported(s, m) }
        rt == [m \in good |-> Rating(s, m)]
    IN { m \in UNION { SurelyPossible(s, k) : k \in 2..s.nc } :
           /\ m \notin chosen
           /\ ~ \E w \in good : /\ Share(w, m)
                                /\ \/ Size(w) > Size(m)
                                   \/ Size(w) = Size(m) /\ ~SurelyAbove(Rating(s, m), rt[w], s.tol) }

Legal(s, ms) == /\ Unsupported(s, ms) = {} /\ PoorlyRated(s, ms) = {} /\ AtLimit(s, ms) = {}
                /\ Ambiguous(s, ms) = {} /\ Shared(ms) = {} /\ SmallerThanWanted(s, ms) = {}
                /\ OutOfOrder(s, ms) = {} /\ LeftOut(s, ms) = {}
=============================================================================
