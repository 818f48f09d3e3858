--------------------------- MODULE TraceRefraction ---------------------------
(* Decides recorded rays and projections.                                        *)
(*  t = "exact": a scene with rational angles in all media; expected values are   *)
(*    computed here.  t = "ray": a general scene with the values of a reference    *)
EXTENDS Refraction, Records
CONSTANTS TolPos, TolDir, TolImg
S == 100000
D == 1000000
Bad(b, name) == IF b THEN {} ELSE {name}
ScaledVec(v, m, s) == [i \in 1..Len(v) |-> Scaled(v[i], m, s)]

Exact(r) ==
    LET s == r.s
        h == MaxI(CamHeight(s), 1)
        p == Point(s)
        c == Camera(s)
        g == s.gap
    IN Bad(Sound(s), "unsound-record")
       \cup Bad(CloseVec(r.start, Times(S, OnNear(s)), TolPos), "ray-starts-elsewhere")
       \cup Bad(CloseVec(r.dir, ScaledVec(Dir(s.lat, s.nrm, s.a3), 3 * s.a3[3], D), TolDir), "ray-direction")
       \cup Bad(CloseVec(r.post, <<S * Radius(s), 0, -S * Depth(s)>>, TolPos), "point-in-glass-system")
       \cup Bad(Close(r.z0, S * (CamHeight(s) + Thick(s)), TolPos), "camera-in-glass-system")
       \cup Bad(CloseVec(r.crossp, Times(S, Plus(p, Times(s.k3 * s.a3[2], s.nrm))), TolPos), "foot-of-point")
       \cup Bad(CloseVec(r.crossc, Times(S, Minus(c, Times(s.k1 * s.a1[2], s.nrm))), TolPos), "foot-of-camera")
       \cup Bad(CloseVec(r.back, Times(S, p), TolPos), "back-transformed-elsewhere")
       \cup Bad(CloseVec(r.img, r.ref, TolImg), "projection-does-not-return")
       \cup Bad(CloseVec(r.dimg, r.dref, TolImg), "distorted-projection")
General(r) ==
    Bad(CloseVec(r.start, r.refstart, TolPos), "ray-starts-elsewhere")
    \cup Bad(CloseVec(r.dir, r.refdir, TolDir), "ray-direction")
    \cup Bad(\A i \in 1..Len(r.img) : CloseVec(r.img[i], r.ref[i], TolImg), "projection-does-not-return")
    \cup Bad(\A i \in 1..Len(r.dimg) : CloseVec(r.dimg[i], r.dref[i], TolImg), "distorted-projection")
    \cup Bad(\A i \in 1..Len(r.single) : LET q == r.single[i] IN CloseVec(<<q[2], q[3]>>, r.dimg[q[1]], 1), "depends-on-other-positions")
Failures(r) == IF r.err # "" THEN {"raises"} ELSE IF r.t = "exact" THEN Exact(r) ELSE General(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
