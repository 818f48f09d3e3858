----------------------------- MODULE TraceVolume -----------------------------
(* Decides recorded calls.                                                        *)
(*  t = "exact": rays of the image corners in integers.                            *)
(*  t = "box": the crossings given as numbers of a reference (fixed point).         *)
(*  t = "line": an epipolar line; the depths are computed here from where the ray   *)
(*    starts, the projections are those of a reference.                             *)
(*  t = "mid": the position of a single camera, in integers.                        *)
(*  t = "curve": points of an epipolar curve in pixels.                             *)
EXTENDS Volume, Records
CONSTANTS TolPos, TolBox, TolLine, TolPix
S == 10000
Bad(b, name) == IF b THEN {} ELSE {name}
(* whole + rest / m to k more decimal places, by long division                                      *)
RECURSIVE Places(_, _, _, _)
Places(whole, rest, m, k) == IF k = 0 THEN whole
                             ELSE Places(10 * whole + ((10 * rest) \div m), (10 * rest) % m, m, k - 1)
Fixed(q) == Places(q[1] \div q[2], q[1] % q[2], q[2], 4)
(* largest and smallest of a set of numbers                                         *)
Big(qs) == CHOOSE a \in qs : \A b \in qs : b <= a
Small(qs) == CHOOSE a \in qs : \A b \in qs : a <= b
Box(r) == \* xmax, xmin, ymax, ymin as the definition has them
    LET w == Widest(r.v)
        q(i) == TLCEval(IF r.t = "exact"
                THEN {Fixed(Cross1(y, z, i)) : y \in {r.rays[k] : k \in 1..Len(r.rays)}, z \in {w[1], w[2]}}
                ELSE {r.cross[k][i] : k \in 1..Len(r.cross)})
        s(i) == {S * r.start[i][1], S * r.start[i][2]}
    IN <<Big(q(1) \cup s(1)), Small(q(1) \cup s(1)), Big(q(2) \cup s(2)), Small(q(2) \cup s(2))>>
Boxes(r) ==
    LET b == TLCEval(Box(r))  w == Widest(r.v)  t == IF r.t = "exact" THEN TolPos ELSE TolBox
    IN Bad(r.box[5] = S * w[2] /\ r.box[6] = S * w[1], "depth-range")
       \cup Bad(r.box[1] >= b[1] - t /\ r.box[2] <= b[2] + t /\ r.box[3] >= b[3] - t /\ r.box[4] <= b[4] + t, "point-outside-volume")
       \cup Bad(r.box[1] <= b[1] + t /\ r.box[2] >= b[2] - t /\ r.box[3] <= b[3] + t /\ r.box[4] >= b[4] - t, "volume-too-large")
(* depth of a layer at a fixed-point position; k is the denominator                   *)
DepthFixed(x, z, q) == S * z[1] + Scaled((q - S * x[1]) * (z[2] - z[1]), x[2] - x[1], 1)
Lines(r) ==
    LET n == DepthFixed(r.v.x, r.v.near, r.startx)
        f == DepthFixed(r.v.x, r.v.far, r.startx)
    IN Bad(Close(n, r.refz[1], 5) /\ Close(f, r.refz[2], 5), "unsound-record")
       \cup Bad(CloseVec(r.near, r.refnear, TolLine), "near-end")
       \cup Bad(CloseVec(r.far, r.reffar, TolLine), "far-end")
       \cup Bad(Close(2 * r.mid[3], n + f, 2 * TolPos), "not-half-way")
       \cup Bad(CloseVec(r.mid, r.refmid, TolPos), "not-on-the-ray")
       \cup Bad(r.single = r.mid /\ r.rcm = 0, "single-camera-position")
Mids(r) ==
    LET q == At(r.ray, <<r.glass, 1>>, 1)
        n == Depth(r.v.x, r.v.near, q)
        f == Depth(r.v.x, r.v.far, q)
        h == Half(n, f)
    IN Bad(Close(r.mid[3], Fixed(h), TolPos), "not-half-way")
       \cup Bad(\A i \in 1..2 : Close(r.mid[i], Fixed(At(r.ray, h, i)), TolPos), "not-on-the-ray")
       \cup Bad(CloseVec(r.move, <<Fixed(Cross1(r.ray, r.z, 1)), Fixed(Cross1(r.ray, r.z, 2)), S * r.z>>, TolPos), "moved-off-the-ray")
       \cup Bad(r.single = r.mid /\ r.rcm = 0, "single-camera-position")
(* the k-th of n points of the curve                                                   *)
Curves(r) ==
    Bad(\A k \in 1..Len(r.refz) : Close(r.refz[k], S * r.z[1] + Scaled((k - 1) * (r.z[2] - r.z[1]), Len(r.refz) - 1, S), 2), "unsound-record")
    \cup Bad(Len(r.points) = Len(r.ref), "number-of-points")
    \cup Bad(\A k \in 1..MinI(Len(r.points), Len(r.ref)) : CloseVec(r.points[k], r.ref[k], TolPix), "off-the-curve")
Failures(r) == IF r.err # "" THEN {"raises"}
               ELSE CASE r.t \in {"exact", "box"} -> Boxes(r)
                      [] r.t = "line" -> Lines(r)
                      [] r.t = "mid" -> Mids(r)
                      [] r.t = "curve" -> Curves(r)
Inv == Report(Failures(Recs[pos]))
=============================================================================
