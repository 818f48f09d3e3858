-------------------------------- MODULE Wide --------------------------------
(* Products of naturals below 2^30 compared exactly: TLC integers have 32 bits. *)
EXTENDS Integers, Sequences
WB == 32768
Mod(a, b) == a % b
Abs(a) == IF a < 0 THEN -a ELSE a
\* a * b as four limbs, most significant first
WMul(a, b) ==
    LET a1 == a \div WB  a0 == a % WB
        b1 == b \div WB  b0 == b % WB
        p00 == a0 * b0   p01 == a0 * b1  p10 == a1 * b0  p11 == a1 * b1
        m == (p00 \div WB) + (p01 % WB) + (p10 % WB)
        h == (m \div WB) + (p01 \div WB) + (p10 \div WB) + (p11 % WB)
    IN << (h \div WB) + (p11 \div WB), h % WB, m % WB, p00 % WB >>
RECURSIVE WLessFrom(_, _, _)
WLessFrom(u, v, i) == IF i > 4 THEN FALSE
                      ELSE IF u[i] # v[i] THEN u[i] < v[i] ELSE WLessFrom(u, v, i + 1)
WLess(u, v) == WLessFrom(u, v, 1)
\* a*b < c*d, for naturals
ProdLess(a, b, c, d) == WLess(WMul(a, b), WMul(c, d))
ProdLeq(a, b, c, d) == ~WLess(WMul(c, d), WMul(a, b))
=============================================================================
