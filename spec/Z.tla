---------------------------------- MODULE Z ----------------------------------
(* Exact integers of any size.  TLC's own integers are 32 bits wide, and the
   coordinates this library computes with are not.

   A Z-value is a plain TLA+ integer when its magnitude is below 2^30, and
   otherwise the tuple <<s, l1, ..., ln>> with s \in {-1, 1}, limbs l \in
   0..(2^15-1), little endian, ln # 0.  The representation is canonical, but
   TLC refuses to compare an integer with a tuple, so equality is ZEq.

   The definitions below are the meaning of the operators.  spec/../java/Z.java
   overrides them for speed only; ZCheck.tla compares the two.               *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

z_B == 32768
z_Small == 1073741824

z_Abs(i) == IF i < 0 THEN -i ELSE i

RECURSIVE z_NatLimbs(_)
z_NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % z_B>> \o z_NatLimbs(n \div z_B)

(* sign and magnitude of a Z-value *)
z_IsBig(a) == SubSeq(ToString(a), 1, 1) = "<"
z_Sg(a) == IF z_IsBig(a) THEN a[1] ELSE IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
z_Mg(a) == IF z_IsBig(a) THEN Tail(a) ELSE z_NatLimbs(z_Abs(a))

z_At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
z_Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE z_Strip(_)
z_Strip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN z_Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE z_AddM(_, _, _, _)
z_AddM(x, y, i, c) ==
  IF i > z_Max2(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == z_At(x, i) + z_At(y, i) + c IN <<t % z_B>> \o z_AddM(x, y, i + 1, t \div z_B)

RECURSIVE z_SubM(_, _, _, _)
z_SubM(x, y, i, c) ==   \* x >= y
  IF i > Len(x) THEN <<>>
  ELSE LET t == z_At(x, i) - z_At(y, i) - c
       IN <<IF t < 0 THEN t + z_B ELSE t>> \o z_SubM(x, y, i + 1, IF t < 0 THEN 1 ELSE 0)

RECURSIVE z_CmpM(_, _, _)
z_CmpM(x, y, i) ==
  IF i = 0 THEN 0
  ELSE IF z_At(x, i) < z_At(y, i) THEN -1
  ELSE IF z_At(x, i) > z_At(y, i) THEN 1 ELSE z_CmpM(x, y, i - 1)
z_CompareM(x, y) == z_CmpM(x, y, z_Max2(Len(x), Len(y)))

RECURSIVE z_MulLimb(_, _, _, _)
z_MulLimb(x, d, i, c) ==
  IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == x[i] * d + c IN <<t % z_B>> \o z_MulLimb(x, d, i + 1, t \div z_B)

RECURSIVE z_MulM(_, _)
z_MulM(x, y) ==
  IF y = <<>> THEN <<>>
  ELSE z_AddM(z_MulLimb(x, y[1], 1, 0), <<0>> \o z_MulM(x, Tail(y)), 1, 0)

RECURSIVE z_ToNat(_)
z_ToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + z_B * z_ToNat(Tail(m))

(* canonical Z-value with sign s and magnitude m *)
z_Mk(s, m0) ==
  LET m == z_Strip(m0) IN
  IF Len(m) <= 2 THEN s * z_ToNat(m) ELSE <<s>> \o m

ZNeg(a) == IF z_IsBig(a) THEN <<-a[1]>> \o Tail(a) ELSE -a
ZSgn(a) == z_Sg(a)
ZAbs(a) == IF z_Sg(a) < 0 THEN ZNeg(a) ELSE a
ZAdd(a, b) ==
  IF z_Sg(a) = 0 THEN b ELSE IF z_Sg(b) = 0 THEN a
  ELSE IF z_Sg(a) = z_Sg(b) THEN z_Mk(z_Sg(a), z_AddM(z_Mg(a), z_Mg(b), 1, 0))
  ELSE IF z_CompareM(z_Mg(a), z_Mg(b)) >= 0
       THEN z_Mk(z_Sg(a), z_SubM(z_Mg(a), z_Mg(b), 1, 0))
       ELSE z_Mk(z_Sg(b), z_SubM(z_Mg(b), z_Mg(a), 1, 0))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == IF z_Sg(a) = 0 \/ z_Sg(b) = 0 THEN 0
              ELSE z_Mk(z_Sg(a) * z_Sg(b), z_MulM(z_Mg(a), z_Mg(b)))
ZCmp(a, b) == z_Sg(ZSub(a, b))

a ++ b == ZAdd(a, b)
a -- b == ZSub(a, b)
a ** b == ZMul(a, b)

RECURSIVE ZPow2(_)
ZPow2(n) == IF n = 0 THEN 1 ELSE ZMul(2, ZPow2(n - 1))

RECURSIVE ZSumSeq(_)
ZSumSeq(s) == IF s = <<>> THEN 0 ELSE ZAdd(Head(s), ZSumSeq(Tail(s)))

(* sum of f over the finite set S *)
RECURSIVE ZSumSet(_, _)
ZSumSet(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN ZAdd(f[x], ZSumSet(f, S \ {x}))

ZEq(a, b) == ZCmp(a, b) = 0
ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0
===============================================================================
