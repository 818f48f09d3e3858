------------------------ MODULE TraceTrackPrimitives ------------------------
(* Decides recorded calls of the functions that tracking builds on.            *)
(*  bounds: x within r.lim (integers), strictly                                *)
(*  turn: integer points r.s, r.p, r.c; r.ang (1/1000000 gon), r.acc (1/1000)  *)
(*     as returned, r.ref the angle by an independent formula                  *)
(*  ahead: the position r.got predicted from r.a and r.b (integers)            *)
(*  window: r.got[cam] and r.ref[cam]: right, left, down, up in 1/256 pixel    *)
EXTENDS Records
Abs(a) == IF a < 0 THEN -a ELSE a
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Zero(a) == \A i \in 1..3 : a[i] = 0
Gon == 1000000
AngleOk(r) ==
    LET v == Sub(r.p, r.s)
        w == Sub(r.c, r.s)
    IN IF v = w \/ Zero(v) \/ Zero(w) THEN r.ang = 0
       ELSE IF Zero(Cross(v, w)) THEN Abs(r.ang - (IF Dot(v, w) > 0 THEN 0 ELSE 200 * Gon)) <= 10
       ELSE /\ Abs(r.ang - r.ref) <= 10
            /\ (Dot(v, w) = 0 => Abs(r.ang - 100 * Gon) <= 10)
            /\ (Dot(v, w) > 0 => r.ang < 100 * Gon)
            /\ (Dot(v, w) < 0 => r.ang > 100 * Gon)
\* (acc - 1)^2 <= 10^6 |v - w|^2 <= (acc + 1)^2
AccOk(r) == LET d == Sub(r.p, r.c)
                q == Dot(d, d)
            IN IF q = 0 THEN r.acc = 0
               ELSE /\ q <= 2000
                    /\ (r.acc - 1) * (r.acc - 1) <= 1000000 * q
                    /\ 1000000 * q <= (r.acc + 1) * (r.acc + 1)
Failures(r) ==
    IF r.err # "" THEN {"failed"}
    ELSE CASE r.kind = "bounds" ->
             IF r.got = (\A a \in 1..3 : r.x[a] > r.lim[2 * a - 1] /\ r.x[a] < r.lim[2 * a]) THEN {} ELSE {"in-limits"}
         [] r.kind = "turn" ->
             (IF AngleOk(r) THEN {} ELSE {"angle"}) \cup (IF AccOk(r) THEN {} ELSE {"acceleration"})
         [] r.kind = "ahead" ->
             IF \A a \in 1..Len(r.got) : r.got[a] = 2 * r.b[a] - r.a[a] THEN {} ELSE {"prediction"}
         [] r.kind = "window" ->
             IF \A c \in 1..Len(r.ref) : \A k \in 1..4 : Abs(r.got[c][k] - r.ref[c][k]) <= r.tol THEN {} ELSE {"search-window"}
Inv == Report(Failures(Recs[pos]))
=============================================================================
