----------------------------- MODULE TraceFiles -----------------------------
(* Decides recorded histories of files.  r.ops: operations in order, each with *)
(* what the code under test returned; files are named << kind, camera, frame >>.*)
(*   wt c f rows          write targets                                        *)
(*   wf f ps prio         write particles, links and perhaps priorities        *)
(*   fw f ps prio ts      write a frame: particles and the targets of cameras   *)
(*   rt c f got           read targets                                         *)
(*   rf f links prio got  read particles                                       *)
(*   fr f links prio cs got  read a frame; got.ts[c]: the targets of a camera   *)
(*   lost kind said       a write of which one file has no place to go to         *)
(*   cut n k, short n i, long n i, remove n: damage to a file                  *)
(* changed: files whose content changed during the operation.                  *)
(* said: what a write returns, whether all was written.                         *)
(* Targets in 1/100000 pixel, positions in 1/10000 mm.                         *)
EXTENDS Files, Records

Name(n) == ToString(n)
T(c, f) == << "t", c, f >>
P(k, f) == << k, 0, f >>
Get(disk, n) == IF Name(n) \in DOMAIN disk THEN disk[Name(n)] ELSE Missing
Put(disk, n, lines) == [k \in DOMAIN disk \cup { Name(n) } |-> IF k = Name(n) THEN lines ELSE disk[k]]
Near(a, b) == a - b <= 6 /\ b - a <= 6

\* ---- the files after an operation
RECURSIVE PutTargets(_, _, _, _)
PutTargets(disk, f, ts, c) == IF c > Len(ts) THEN disk ELSE PutTargets(Put(disk, T(c, f), TargetLines(ts[c])), f, ts, c + 1)
PutParticles(disk, f, ps, prio) ==
    LET d1 == Put(Put(disk, P("rt", f), ParticleLines(ps)), P("lk", f), LinkLines(ps))
    IN IF prio THEN Put(d1, P("pr", f), PrioLines(ps)) ELSE d1
Effect(disk, o) ==
    CASE o.op = "wt" -> Put(disk, T(o.c, o.f), TargetLines(o.rows))
      [] o.op = "wf" -> PutParticles(disk, o.f, o.ps, o.prio)
      [] o.op = "fw" -> PutTargets(PutParticles(disk, o.f, o.ps, o.prio), o.f, o.ts, 1)
      [] o.op = "cut" -> Put(disk, o.n, Cut(Get(disk, o.n), o.k))
      [] o.op = "short" -> Put(disk, o.n, Shortened(Get(disk, o.n), o.i))
      [] o.op = "long" -> Put(disk, o.n, Lengthened(Get(disk, o.n), o.i))
      [] o.op = "remove" -> Put(disk, o.n, Missing)
      [] OTHER -> disk
Writes(o) ==
    CASE o.op = "wt" -> { T(o.c, o.f) }
      [] o.op = "wf" -> { P("rt", o.f), P("lk", o.f) } \cup (IF o.prio THEN { P("pr", o.f) } ELSE {})
      [] o.op = "fw" -> { P("rt", o.f), P("lk", o.f) } \cup (IF o.prio THEN { P("pr", o.f) } ELSE {})
                          \cup { T(c, o.f) : c \in 1..Len(o.ts) }
      [] OTHER -> {}
Hurts(o) == o.op \in {"cut", "short", "long", "remove"}

\* ---- what reading must give
SameTarget(a, b) == /\ a[1] = b[1] /\ \A k \in 4..8 : a[k] = b[k]
                    /\ Near(a[2], b[2]) /\ Near(a[3], b[3])
SameTargets(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameTarget(s[i], t[i])
SameParticle(a, b) == /\ a.t = b.t /\ a.prev = b.prev /\ a.next = b.next /\ a.prio = b.prio
                      /\ Len(a.x) = Len(b.x) /\ \A k \in 1..Len(a.x) : Near(a.x[k], b.x[k])
SameParticles(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameParticle(s[i], t[i])
ExpParticles(disk, o) == Particles(Get(disk, P("rt", o.f)), IF o.links THEN Get(disk, P("lk", o.f)) ELSE Unread,
                                   IF o.prio THEN Get(disk, P("pr", o.f)) ELSE Unread)
Used(o) == CASE o.op = "rt" -> { T(o.c, o.f) }
             [] o.op = "rf" -> { P("rt", o.f) } \cup (IF o.links THEN { P("lk", o.f) } ELSE {}) \cup (IF o.prio THEN { P("pr", o.f) } ELSE {})
             [] o.op = "fr" -> { P("rt", o.f) } \cup (IF o.links THEN { P("lk", o.f) } ELSE {}) \cup (IF o.prio THEN { P("pr", o.f) } ELSE {})
                                 \cup { T(c, o.f) : c \in 1..o.cs }
             [] OTHER -> {}
ReadFailures(disk, o, hurt) ==
    LET sound == Used(o) \cap hurt = {} /\ \A n \in Used(o) : Isin(Get(disk, n))
        tag == IF sound THEN "" ELSE "damaged-"
        exp == IF o.op = "rt" THEN Targets(Get(disk, T(o.c, o.f))) ELSE ExpParticles(disk, o)
        cams == IF o.op = "fr" THEN 1..o.cs ELSE {}
        tg(c) == Targets(Get(disk, T(c, o.f)))
        fails == exp.err \/ \E c \in cams : tg(c).err
    IN IF fails
       THEN IF o.got.err THEN {} ELSE {"damage-unnoticed"}
       ELSE IF o.got.err /\ ~sound THEN {}          \* damage may always be reported
       ELSE IF o.got.err THEN {tag \o (IF o.op = "rt" THEN "targets-not-read" ELSE "particles-not-read")}
       ELSE IF o.op = "rt" THEN IF SameTargets(exp.rows, o.got.rows) THEN {} ELSE {tag \o "targets-differ"}
       ELSE (IF SameParticles(exp.rows, o.got.rows) THEN {} ELSE {tag \o "particles-differ"})
            \cup (IF \A c \in cams : SameTargets(tg(c).rows, o.got.ts[c]) THEN {} ELSE {tag \o "targets-differ"})
Fails(disk, o, hurt) ==
    CASE o.op \in {"wt", "wf", "fw"} ->
            (IF o.err # "" \/ o.said THEN {} ELSE {"write-denied"}) \cup
            (IF o.err = "" THEN {} ELSE {IF o.op = "wt" THEN "targets-not-written" ELSE "particles-not-written"})
            \cup (IF \A i \in 1..Len(o.changed) : o.changed[i] \in { Name(n) : n \in Writes(o) } THEN {}
                  ELSE {IF o.op = "wt" THEN "targets-elsewhere" ELSE "particles-elsewhere"})
      [] o.op = "lost" -> IF o.said THEN {"lost-write-unnoticed"} ELSE IF o.changed # <<>> THEN {"lost-write-elsewhere"} ELSE {}
      [] o.op \in {"rt", "rf", "fr"} ->
            ReadFailures(disk, o, hurt)
            \cup (IF o.changed = <<>> THEN {} ELSE {IF o.op = "rt" THEN "targets-elsewhere" ELSE "particles-elsewhere"})
      [] OTHER -> {}

RECURSIVE Replay(_, _, _, _, _)
Replay(ops, i, disk, hurt, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET o == ops[i] IN
         Replay(ops, i + 1, TLCEval(Effect(disk, o)),
                IF Hurts(o) THEN hurt \cup {o.n}
                ELSE (hurt \ Writes(o)) \cup (IF o.op \in {"wf", "fw"} /\ ~o.prio THEN { P("pr", o.f) } ELSE {}),
                acc \cup Fails(disk, o, hurt))
Failures(r) == Replay(r.ops, 1, [k \in {} |-> <<>>], {}, {})
Inv == Report(Failures(Recs[pos]))
=============================================================================
