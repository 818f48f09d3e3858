-------------------------------- MODULE Mmlut --------------------------------
(* The table of radial shifts: nr x nz entries over the distance from the axis and  *)
(* the depth.  Positions in quarters of a step, counted from the origin.            *)
EXTENDS Lattice
LOCAL Rest(a) == a % 4
Cell(q) == <<q[1] \div 4, q[2] \div 4>>                     \* the cell of a position (from 0)
Frac(q) == <<Rest(q[1]), Rest(q[2])>>
Inside(t, q) == LET c == Cell(q) IN c[1] >= 0 /\ c[1] + 1 < t.nr /\ c[2] >= 0 /\ c[2] + 1 < t.nz
(* exactly on the last row or column: there is an entry, but no cell beyond it       *)
OnLast(t, q) == /\ ~Inside(t, q) /\ q[1] >= 0 /\ q[2] >= 0
                /\ q[1] <= 4 * (t.nr - 1) /\ q[2] <= 4 * (t.nz - 1)
At(t, i, j) == t.data[i + 1][j + 1]
Corners(t, c) == {<<c[1] + a, c[2] + b>> : a \in 0..1, b \in 0..1}
(* sixteen times the bilinear interpolation of four values                            *)
Mix(v00, v01, v10, v11, f) == v00 * (4 - f[1]) * (4 - f[2]) + v01 * (4 - f[1]) * f[2] + v10 * f[1] * (4 - f[2]) + v11 * f[1] * f[2]
Look16(t, q) == LET c == Cell(q) IN Mix(At(t, c[1], c[2]), At(t, c[1], c[2] + 1), At(t, c[1] + 1, c[2]), At(t, c[1] + 1, c[2] + 1), Frac(q))
(* the value on the last row or column, from the entries on it                        *)
Last16(t, q) == LET i0 == MinI(q[1] \div 4, t.nr - 1)  j0 == MinI(q[2] \div 4, t.nz - 1)
                    i1 == MinI(i0 + 1, t.nr - 1)       j1 == MinI(j0 + 1, t.nz - 1)
                IN Mix(At(t, i0, j0), At(t, i0, j1), At(t, i1, j0), At(t, i1, j1), Frac(q))
=============================================================================
