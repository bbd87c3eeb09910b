------------------------------- MODULE Estimates --------------------------------
(* What an estimate of m log n may be.  The logarithm is enclosed between two
   multiples of 1/1024: Lg(n) / 1024 <= log2 n < (Lg(n) + 1) / 1024.           *)
EXTENDS Z

RECURSIVE e_Low(_, _, _), e_Fine(_, _, _, _)
e_Low(n, p, pow) == IF ZLt(n, ZMul(2, pow)) THEN <<p, pow>> ELSE e_Low(n, p + 1, ZMul(2, pow))
\* a = n^(2^j), pow = 2^p, pow <= a < 2 pow
e_Fine(a, p, pow, j) ==
  IF j = 10 THEN p
  ELSE CHOOSE r \in { IF ZLe(t[3], t[1]) THEN e_Fine(t[1], 2 * p + 1, t[3], j + 1)
                                         ELSE e_Fine(t[1], 2 * p, t[2], j + 1) :
                      t \in { <<ZMul(a, a), ZMul(pow, pow), ZMul(2, ZMul(pow, pow))>> } } : TRUE
Lg(n) == CHOOSE r \in { e_Fine(n, t[1], t[2], 0) : t \in { e_Low(n, 0, 1) } } : TRUE

\* the documented condition: m <= 4 n, and what must hold then:
\* |e - v| <= 1 + 0.033 v, v = m log2 n between m lg/1024 and m (lg+1)/1024
Applies(m, n) == ZLe(m, ZMul(4, n))
Close(e, m, n) ==
  IF ZSgn(n) = 0 THEN ZSgn(e) = 0      \* then m = 0 as well
  ELSE \E lg \in { Lg(n) } :
    /\ ZLe(ZMul(1024000, e), ZAdd(1024000, ZMul(1033, ZMul(m, IF lg = 0 /\ ZEq(n, 1) THEN 0 ELSE lg + 1))))
    /\ ZLe(ZMul(967, ZMul(m, lg)), ZAdd(1024000, ZMul(1024000, e)))
=================================================================================
