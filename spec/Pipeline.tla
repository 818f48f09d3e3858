------------------------------ MODULE Pipeline ------------------------------
(* From images to trajectories: what the whole chain owes to particles that are   *)
(* well apart - each one seen is detected once, matched with exactly its own      *)
(* images, placed where it is and followed as long as it is seen.                  *)
EXTENDS Integers, Sequences, FiniteSets

\* an edge << c, p, d, q >> (c < d): image of p in camera c and image of q in d may belong together
Joined(edges, a, b) == << a[1], a[2], b[1], b[2] >> \in edges \/ << b[1], b[2], a[1], a[2] >> \in edges
Mixed(e) == e[2] # e[4]
\* three images of three cameras that fit together without being of one particle
MixedTriangle(edges) ==
    \E e \in edges, f \in edges :
        /\ e[3] = f[1] /\ e[4] = f[2]
        /\ << e[1], e[2], f[3], f[4] >> \in edges
        /\ (Mixed(e) \/ Mixed(f))
\* a wrong pair does no harm if both of its particles are matched in three cameras before (a pair is
\* only taken if there is no other choice, even if the other is taken already)
Harmless(e, count) == count[e[2]] >= 3 /\ count[e[4]] >= 3
Unambiguous(edges, count) == ~ MixedTriangle(edges) /\ \A e \in edges : Mixed(e) => Harmless(e, count)

\* a particle's trajectory through the frames in which it is matched (a sequence of truth values):
\* which step must be found - one that goes on, or that goes on from one already found
RECURSIVE Must(_, _)
Must(there, t) ==
    /\ t >= 1 /\ t < Len(there) /\ there[t] /\ there[t + 1]
    /\ \/ t + 2 <= Len(there) /\ there[t + 2]
       \/ Must(there, t - 1)
=============================================================================
