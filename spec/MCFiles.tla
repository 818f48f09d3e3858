------------------------------- MODULE MCFiles -------------------------------
(* Every history of writing, overwriting, removing and damaging the files of   *)
(* two cameras and two frames: what is read is what was written last, unless   *)
(* the file was damaged, and then it is an error, nothing, or still right.     *)
EXTENDS Files
CONSTANTS Cams, Frames, MaxLen, MaxSteps

VARIABLES disk,      \* file -> lines
          wrote,     \* slot -> what was written last
          fresh,     \* slots to which nothing has been written
          hurt,      \* files that are not as they were written
          steps
vars == << disk, wrote, fresh, hurt, steps >>

TFile(c, f) == << "t", c, f >>
Names == { TFile(c, f) : c \in Cams, f \in Frames } \cup { << k, 0, f >> : k \in {"rt", "lk", "pr"}, f \in Frames }
SomeTargets == { [i \in 1..n |-> << i - 1, v, 2, 3, 1, 3, 9, -1 >>] : n \in 0..MaxLen, v \in {1, 2} }
SomeParts == { [i \in 1..n |-> [x |-> << v, i, 0 >>, t |-> << i, -1, -1, v >>, prev |-> v - 2, next |-> -2 + i, prio |-> v]] :
               n \in 0..MaxLen, v \in {1, 2} }
Slots == { TFile(c, f) : c \in Cams, f \in Frames } \cup { << "rt", 0, f >> : f \in Frames }

Init == /\ disk = [n \in Names |-> Missing]
        /\ wrote = [s \in Slots |-> <<>>]
        /\ fresh = Slots
        /\ hurt = {}
        /\ steps = 0
WriteTargets == \E c \in Cams, f \in Frames, ts \in SomeTargets :
    /\ disk' = [disk EXCEPT ![TFile(c, f)] = TargetLines(ts)]
    /\ wrote' = [wrote EXCEPT ![TFile(c, f)] = ts]
    /\ fresh' = fresh \ { TFile(c, f) }
    /\ hurt' = hurt \ { TFile(c, f) }
WriteParticles == \E f \in Frames, ps \in SomeParts, p \in BOOLEAN :
    /\ disk' = [disk EXCEPT ![<< "rt", 0, f >>] = ParticleLines(ps), ![<< "lk", 0, f >>] = LinkLines(ps),
                            ![<< "pr", 0, f >>] = IF p THEN PrioLines(ps) ELSE @]
    /\ wrote' = [wrote EXCEPT ![<< "rt", 0, f >>] = ps]
    /\ fresh' = fresh \ { << "rt", 0, f >> }
    \* priorities that were not written with these particles belong to others
    /\ hurt' = (hurt \ { << "rt", 0, f >>, << "lk", 0, f >>, << "pr", 0, f >> })
                 \cup (IF p THEN {} ELSE { << "pr", 0, f >> })
Damage == \E n \in Names :
    /\ Isin(disk[n])
    /\ n \notin hurt
    /\ \/ \E k \in 0..Len(disk[n]) - 1 : disk' = [disk EXCEPT ![n] = Cut(@, k)]
       \/ \E i \in 2..Len(disk[n]) : disk' = [disk EXCEPT ![n] = Shortened(@, i)]
       \/ \E i \in 2..Len(disk[n]) : disk' = [disk EXCEPT ![n] = Lengthened(@, i)]
       \/ disk' = [disk EXCEPT ![n] = Missing]
    /\ hurt' = hurt \cup {n}
    /\ UNCHANGED << wrote, fresh >>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (WriteTargets \/ WriteParticles \/ Damage)
Spec == Init /\ [][Next]_vars

TargetsRight == \A c \in Cams, f \in Frames : LET n == TFile(c, f) IN
    IF n \in fresh THEN Targets(disk[n]) = Error
    ELSE IF n \in hurt THEN Targets(disk[n]) = Error ELSE Targets(disk[n]) = Gives(wrote[n])
Read(f, l, p) == Particles(disk[<< "rt", 0, f >>], IF l THEN disk[<< "lk", 0, f >>] ELSE Unread,
                           IF p THEN disk[<< "pr", 0, f >>] ELSE Unread)
ParticlesRight == \A f \in Frames, l, p \in BOOLEAN :
    LET got == Read(f, l, p)
        used == { << "rt", 0, f >> } \cup (IF l THEN { << "lk", 0, f >> } ELSE {}) \cup (IF p THEN { << "pr", 0, f >> } ELSE {})
        missing == \E n \in used : ~Isin(disk[n])
        damaged == used \cap hurt # {}
    IN IF missing THEN got = Gives(<<>>)
       ELSE IF << "rt", 0, f >> \in fresh THEN TRUE
       ELSE IF ~damaged THEN got = Gives(Expected(wrote[<< "rt", 0, f >>], l, p))
       ELSE IF << "pr", 0, f >> \notin used \/ << "pr", 0, f >> \notin hurt
         THEN got = Error \/ (wrote[<< "rt", 0, f >>] = <<>> /\ << "rt", 0, f >> \notin hurt /\ got = Gives(<<>>))
       ELSE TRUE
=============================================================================
