-------------------------------- MODULE Floats ---------------------------------
(* Binary floating point values as pairs <<m, e>>, standing for m * 2^e, and the
   conversions between them and rationals <<p, q>>.                             *)
EXTENDS Z


\* the rational a double stands for, with a positive denominator
Rat(d) == IF d[2] >= 0 THEN <<ZMul(d[1], ZPow2(d[2])), 1>> ELSE <<d[1], ZPow2(0 - d[2])>>
Pos(r) == IF ZSgn(r[2]) < 0 THEN <<ZNeg(r[1]), ZNeg(r[2])>> ELSE r
SameRat(a, b) == ZEq(ZMul(a[1], b[2]), ZMul(b[1], a[2]))

\* a double, normal or subnormal; its last place is worth 2^d[2]
IsDouble(d) == /\ d[2] >= -1074 /\ d[2] <= 971
               /\ ZLt(ZAbs(d[1]), ZPow2(53))
               /\ d[2] = -1074 \/ ZLe(ZPow2(52), ZAbs(d[1]))

\* |a - r| <= (n/m) * 2^k
Within(a, r, n, m, k) ==
  \E t \in { <<ZAbs(ZSub(ZMul(a[1], r[2]), ZMul(r[1], a[2]))), ZMul(ZAbs(a[2]), ZAbs(r[2])),
               IF k >= 0 THEN ZPow2(k) ELSE 1, IF k >= 0 THEN 1 ELSE ZPow2(0 - k)>> } :
     ZLe(ZMul(ZMul(m, t[1]), t[4]), ZMul(ZMul(n, t[2]), t[3]))

\* the double d represents the rational r to within one unit in the last place
InLastPlace(d, r) == IsDouble(d) /\ Within(Rat(d), Pos(r), 1, 1, d[2])

\* r is the double d rounded to a multiple of 2^g (k times): nothing farther than half of that
Quantized(d, r, g, k) == SameRat(r, Rat(<<k, g>>)) /\ Within(Rat(d), r, 1, 2, g)
=================================================================================
