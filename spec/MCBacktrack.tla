----------------------------- MODULE MCBacktrack -----------------------------
(* Backward tracking, frame after frame and particle after particle, with any  *)
(* outcome of the searches.  links: per frame the << previous, next >> of its  *)
(* particles.  want[f][h]: the particle of the frame before that h would like  *)
(* best (-1: none); fits[f][h]: it comes from a fitting direction.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NF, NP

VARIABLES links, start, want, fits, f, h
vars == << links, start, want, fits, f, h >>
P == 1..NP
\* partial matchings between neighbouring frames
Matchings == { m \in [P -> 0..NP] : \A i, j \in P : (i # j /\ m[i] # 0) => m[i] # m[j] }
Before(mm, g, i) == IF g = 1 THEN 0 ELSE IF \E j \in P : mm[g - 1][j] = i THEN CHOOSE j \in P : mm[g - 1][j] = i ELSE 0
Init == \E mm \in [1..(NF - 1) -> Matchings] :
    /\ links = [g \in 1..NF |-> [i \in P |-> << Before(mm, g, i), IF g = NF THEN 0 ELSE mm[g][i] >>]]
    /\ start = links
    /\ want \in [2..(NF - 1) -> [P -> 0..NP]]
    /\ fits \in [2..(NF - 1) -> [P -> BOOLEAN]]
    /\ f = NF - 1
    /\ h = 1
Eligible(g, i) == links[g][i][2] # 0 /\ links[g][i][1] = 0
\* every particle of a frame looks before the first link is made; a link does not change who looks
Step ==
    /\ f >= 2
    /\ LET m == want[f][h] IN
       IF Eligible(f, h) /\ m # 0 /\ links[f - 1][m][2] = 0 /\ (links[f - 1][m][1] = 0 \/ fits[f][h])
       THEN links' = [links EXCEPT ![f][h][1] = m, ![f - 1][m][2] = h]
       ELSE UNCHANGED links
    /\ IF h < NP THEN h' = h + 1 /\ f' = f ELSE h' = 1 /\ f' = f - 1
    /\ UNCHANGED << start, want, fits >>
Spec == Init /\ [][Step]_vars

Mutual == \A g \in 1..(NF - 1) : \A i, j \in P : links[g][i][2] = j <=> links[g + 1][j][1] = i
Kept == \A g \in 1..NF : \A i \in P : \A s \in 1..2 : start[g][i][s] # 0 => links[g][i][s] = start[g][i][s]
New(g, i) == links[g][i][1] # 0 /\ start[g][i][1] = 0
StartsAtGap == \A g \in 2..NF : \A i \in P : New(g, i) => links[g][i][2] # 0 /\ g < NF
EndsAtEnd == \A g \in 2..NF : \A i \in P : New(g, i) => start[g - 1][links[g][i][1]][2] = 0
\* what is judged by the final files: a wanted particle that is free to the end was never refused
NoFreeGap == f < 2 => \A g \in 2..(NF - 1) : \A i \in P :
    (links[g][i][2] # 0 /\ links[g][i][1] = 0 /\ want[g][i] # 0
     /\ (start[g - 1][want[g][i]][1] = 0 \/ fits[g][i])) => links[g - 1][want[g][i]][2] # 0
=============================================================================
