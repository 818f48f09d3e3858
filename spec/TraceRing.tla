------------------------------ MODULE TraceRing ------------------------------
(* Decides recorded histories of a frame buffer.                                *)
(*  t = "window": ops with win (the frames in order: id, particles, links,       *)
(*      targets) and disk (the content of the files of each number) after each   *)
(*  t = "queue": pushes and pops of a buffer of n frames that starts with the    *)
(*      frames 1..start in it                                                    *)
EXTENDS Ring, Records

WindowOf(o) == [i \in 1..Len(o.win) |-> [id |-> o.win[i][1], c |-> [parts |-> o.win[i][2], links |-> o.win[i][3], targets |-> o.win[i][4]]]]
Disk(o) == [i \in 1..Len(o.disk) |-> o.disk[i]]
Slot(dk, num) == CHOOSE i \in 1..Len(dk) : dk[i].num = num
RECURSIVE Turn(_, _)
Turn(k, w) == IF k = 0 THEN w ELSE Turn(k - 1, Forward(w))
After(w, dk, o) ==
    CASE o.op = "next" -> Forward(w)
      [] o.op = "prev" -> Back(w)
      [] o.op = "turn" -> w
      [] o.op = "read" -> ReadEnd(w, Content(dk[Slot(dk, o.num)], o.links))
      [] o.op = "fill" -> [w EXCEPT ![o.at] = [@ EXCEPT !.c = [parts |-> o.c[1], links |-> o.c[2], targets |-> o.c[3]]]]
      [] OTHER -> w
DiskAfter(w, dk, o) ==
    IF o.op # "write" THEN dk
    ELSE [dk EXCEPT ![Slot(dk, o.num)] = [@ EXCEPT !.parts = w[1].c.parts, !.links = w[1].c.links, !.targets = w[1].c.targets]]
SameDisk(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].num = b[i].num /\ a[i].parts = b[i].parts /\ a[i].links = b[i].links
                                                       /\ a[i].targets = b[i].targets
Ids(w) == [i \in 1..Len(w) |-> w[i].id]
\* after a read of missing files the content of the last frame is not specified
Loose(w) == SubSeq(w, 1, Len(w) - 1)
StepFails(o, w, v, dk, ek) ==
    (IF o.err = "" THEN {} ELSE {o.op \o "-fails"})
    \cup (IF Ids(v) = Ids(w) THEN {} ELSE {"window-shifted-wrongly-by-" \o o.op})
    \cup (IF Ids(v) = Ids(w) /\ v # w /\ ~(o.op = "missing" /\ Loose(v) = Loose(w)) THEN {"content-changed-by-" \o o.op} ELSE {})
    \cup (IF SameDisk(ek, dk) THEN {} ELSE {"files-differ-after-" \o o.op})
RECURSIVE Replay(_, _, _, _, _)
Replay(ops, i, w, dk, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET o == ops[i]
             v == TLCEval(WindowOf(o))
         IN Replay(ops, i + 1, v, TLCEval(Disk(o)), acc \cup StepFails(o, After(w, dk, o), v, DiskAfter(w, dk, o), Disk(o)))
WindowFails(r) ==
    IF r.ops[1].err # "" THEN {"new-fails"}
    ELSE LET w == WindowOf(r.ops[1]) IN
         (IF \E i \in 1..Len(w) : w[i].id # i THEN {"frames-not-separate"} ELSE {}) \cup Replay(r.ops, 2, w, Disk(r.ops[1]), {})

StartQueue(r) == [NewQueue(r.n) EXCEPT !.slot = [i \in 0..(r.n - 1) |-> IF i < r.start THEN i + 1 ELSE 0], !.size = r.start]
RECURSIVE Serve(_, _, _, _)
Serve(ops, i, q, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET o == ops[i] IN
         IF o.op = "push" THEN Serve(ops, i + 1, Push(q, o.x), acc \cup (IF o.err = "" THEN {} ELSE {"push-fails"}))
         ELSE Serve(ops, i + 1, Pop(q), acc \cup (IF o.err = "" /\ o.got = Popped(q) THEN {} ELSE {"wrong-item-returned"}))
Failures(r) == IF r.t = "window" THEN WindowFails(r) ELSE Serve(r.ops, 1, StartQueue(r), {})
Inv == Report(Failures(Recs[pos]))
=============================================================================
