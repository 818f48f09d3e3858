----------------------------- MODULE MCPipeline -----------------------------
(* Matching, from the largest groups to pairs, in any order: whenever the scene   *)
(* is unambiguous in the sense of Pipeline, exactly the particles seen by two or   *)
(* more cameras come out, each with all of its images.                             *)
EXTENDS Pipeline, TLC
CONSTANTS Cameras, Particles, Least
VARIABLES seen, todo, edges, size, used, found
vars == << seen, todo, edges, size, used, found >>
C == 1..Cameras
Ps == 1..Particles
Images(s) == { << c, p >> \in C \X Ps : c \in s[p] }
Pairs(s) == { e \in { << a[1], a[2], b[1], b[2] >> : a \in Images(s), b \in Images(s) } : e[1] < e[3] }
Own(s) == { e \in Pairs(s) : ~ Mixed(e) }
Count(s) == [p \in Ps |-> Cardinality(s[p])]
Init == /\ seen \in [Ps -> { s \in SUBSET C : Cardinality(s) >= Least }]
        /\ edges = Own(seen)
        /\ todo = { e \in Pairs(seen) : Mixed(e) }
        /\ size = Cameras /\ used = {} /\ found = {}
\* the scene: wrong pairs as many as it bears
First(S) == CHOOSE e \in S : \A f \in S : \/ e[1] < f[1]
                                          \/ e[1] = f[1] /\ e[2] < f[2]
                                          \/ e[1] = f[1] /\ e[2] = f[2] /\ e[3] < f[3]
                                          \/ e[1] = f[1] /\ e[2] = f[2] /\ e[3] = f[3] /\ e[4] <= f[4]
Draw == /\ todo # {}
        /\ LET e == First(todo) IN
           /\ todo' = todo \ {e}
           /\ \/ edges' = edges
              \/ Unambiguous(edges \cup {e}, Count(seen)) /\ edges' = edges \cup {e}
        /\ UNCHANGED << seen, size, used, found >>
Free == Images(seen) \ used
\* groups of k images of k cameras that fit together
Sure(D, pick) == \A c \in D, d \in D : c < d => \A e \in edges : (e[1] = c /\ e[2] = pick[c] /\ e[3] = d) => e[4] = pick[d]
Fit(D, pick) == (Cardinality(D) = 2 => Sure(D, pick)) /\ \A c \in D, d \in D : c < d => << c, pick[c], d, pick[d] >> \in edges
Possible(k) == UNION { { { << c, pick[c] >> : c \in D } :
                         pick \in { f \in [D -> Ps] : (\A c \in D : << c, f[c] >> \in Free) /\ Fit(D, f) } }
                       : D \in { E \in SUBSET C : Cardinality(E) = k } }
Match == /\ todo = {} /\ size >= 2
         /\ LET P == Possible(size) IN
            IF P = {} THEN size' = size - 1 /\ UNCHANGED << used, found >>
            ELSE \E g \in P : found' = found \cup {g} /\ used' = used \cup g /\ size' = size
         /\ UNCHANGED << seen, todo, edges >>
Next == Draw \/ Match
Spec == Init /\ [][Next]_vars
Right(p) == { << c, p >> : c \in seen[p] }
NothingWrong == \A g \in found : \E p \in Ps : g = Right(p)
Complete == size < 2 => found = { Right(p) : p \in { q \in Ps : Cardinality(seen[q]) >= 2 } }
Apart == \A g \in found, h \in found : g # h => g \cap h = {}
=============================================================================
