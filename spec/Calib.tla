-------------------------------- MODULE Calib --------------------------------
(* A calibration as an object with parts, its two files, and the rotation      *)
(* matrix of its angles.  mat: the angles to which the matrix belongs.          *)
EXTENDS Integers, Sequences

Parts == {"pos", "ang", "prim", "rad", "dec", "aff", "glass"}
Size(p) == CASE p \in {"dec", "aff"} -> 2 [] p = "added" -> 7 [] OTHER -> 3
\* a new calibration, for a given zero and one
Fresh(zero, one) ==
    LET z3 == << zero, zero, zero >> IN
    [pos |-> z3, ang |-> z3, prim |-> z3, rad |-> z3, dec |-> << zero, zero >>, aff |-> << one, zero >>,
     glass |-> << zero, zero, one >>, mat |-> z3]
\* setting a part; "added" are the three kinds of distortion, "mat" a matrix
Set(c, part, v) ==
    CASE part = "ang" -> [c EXCEPT !.ang = v, !.mat = v]
      [] part = "added" -> [c EXCEPT !.rad = SubSeq(v, 1, 3), !.dec = SubSeq(v, 4, 5), !.aff = SubSeq(v, 6, 7)]
      [] OTHER -> [c EXCEPT ![part] = v]
Refresh(c) == [c EXCEPT !.mat = c.ang]
\* the files
OriOf(c) == [pos |-> c.pos, ang |-> c.ang, prim |-> c.prim, glass |-> c.glass]
AddOf(c) == [rad |-> c.rad, dec |-> c.dec, aff |-> c.aff]
NoAdd(zero, one) == [rad |-> << zero, zero, zero >>, dec |-> << zero, zero >>, aff |-> << one, zero >>]
FromFiles(ori, add) ==
    [pos |-> ori.pos, ang |-> ori.ang, prim |-> ori.prim, rad |-> add.rad, dec |-> add.dec, aff |-> add.aff,
     glass |-> ori.glass, mat |-> ori.ang]
Same(a, b) == \A p \in Parts : a[p] = b[p]

\* ------------------------------------------------ the matrix of the angles
\* an angle is << c, s, h >> with c / h and s / h its cosine and sine: all whole
Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Times(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
RotX(a) == << << a[3], 0, 0 >>, << 0, a[1], -a[2] >>, << 0, a[2], a[1] >> >>
RotY(a) == << << a[1], 0, a[2] >>, << 0, a[3], 0 >>, << -a[2], 0, a[1] >> >>
RotZ(a) == << << a[1], -a[2], 0 >>, << a[2], a[1], 0 >>, << 0, 0, a[3] >> >>
\* the matrix times the three hypotenuses
Rotation(o, p, k) == Times(Times(RotX(o), RotY(p)), RotZ(k))
Transposed(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Diagonal(d) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN d ELSE 0]]
Det(a) == a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
          + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
=============================================================================
