------------------------------ MODULE ZCheck ------------------------------
(* Prints a table of Z results.  bin/check.py --zcheck runs it twice, with and
   without the Java overrides: the two outputs must be the same text.       *)
EXTENDS Z, TLC
Vals == <<0, 1, -1, 2, 7, -5, 32767, 32768, -32768, 65535, 1073741823, -1073741823>>
Prods(s, t) == [i \in 1..(Len(s) * Len(t)) |->
                  ZMul(s[((i - 1) % Len(s)) + 1], t[((i - 1) \div Len(s)) + 1])]
P1 == Prods(<<1073741823, -65537, 32768, 12345>>, <<1073741823, 32769, -1>>)
P2 == Prods(P1, <<1073741823, -99, 32768>>)
V == Vals \o P1 \o P2 \o [i \in 1..Len(P1) |-> ZAdd(P1[i], 1073741823)]
ASSUME \A i, j \in 1..Len(V) : LET a == V[i] b == V[j] IN
  PrintT(<<i, j, ZAdd(a, b), ZSub(a, b), ZMul(a, b), ZCmp(a, b), ZNeg(a), ZAbs(a), ZSgn(a), ZEq(a, b)>>)
ASSUME PrintT(<<ZPow2(29), ZPow2(30), ZPow2(31), ZPow2(45), ZPow2(64), ZPow2(100)>>)
ASSUME PrintT(ZSumSeq(<<1, ZPow2(64), 5, ZNeg(ZPow2(64)), 1073741823, 1073741823, 1073741823>>))
===========================================================================
