---------------------------- MODULE BigIntMachine ----------------------------
(* The arithmetic machine: a file of registers holding exact integers, the
   operations of BigInt, BigUInt and the rational helpers as transitions.
   Each action constrains the logged result by the mathematical meaning of the
   operation; division and gcd are specified by their defining property.      *)
EXTENDS Conformance

VARIABLE reg              \* reg[i] : the integer register i holds

vars == <<c, l, reg>>
NR == 6

Init == TraceStart /\ reg = [i \in 1..NR |-> 0]

a == reg[Ev.a]
b == reg[Ev.b]
Put(v) == reg' = [reg EXCEPT ![Ev.d] = v]

\* value-producing operations: the logged v is the content of register d
\* (canon: every comparison identifies it with an independently built equal)
Set(op, v) == IsEvent(op) /\ ZEq(Ev.v, v) /\ Ev.canon /\ Put(Ev.v)
\* observers: the logged r is the answer
Obs(op, r) == IsEvent(op) /\ Ev.r = r /\ UNCHANGED reg

Bit(x) == IF x THEN 1 ELSE 0

Load     == Set("load", ZAdd(ZMul(Ev.hi, ZPow2(Ev.sh)), Ev.lo))
Copy     == Set("copy", a)
Move     == Set("move", a)
Add      == Set("add", a ++ b)
Sub      == Set("sub", a -- b)
Mul      == Set("mul", a ** b)
AddEq    == Set("addeq", reg[Ev.d] ++ b)
SubEq    == Set("subeq", reg[Ev.d] -- b)
MulEq    == Set("muleq", reg[Ev.d] ** b)
AddI     == Set("addi", a ++ Ev.i)
SubI     == Set("subi", a -- Ev.i)
MulI     == Set("muli", a ** Ev.i)
AddEqI   == Set("addeqi", reg[Ev.d] ++ Ev.i)
SubEqI   == Set("subeqi", reg[Ev.d] -- Ev.i)
MulEqI   == Set("muleqi", reg[Ev.d] ** Ev.i)
Inc      == Set("inc", reg[Ev.d] ++ 1)
Dec      == Set("dec", reg[Ev.d] -- 1)
Neg      == Set("neg", ZNeg(a))
Negate   == Set("negate", ZNeg(reg[Ev.d]))
AbsOp    == Set("abs", ZAbs(a))
GetAbs   == Set("getabs", ZAbs(a)) /\ Ev.s = (ZSgn(a) < 0)
UIntAbs  == Set("uintabs", ZAbs(a)) /\ Ev.s = (ZSgn(a) < 0)
Shl      == Set("shl", a ** ZPow2(Ev.n))
AddMul   == Set("addmul", reg[Ev.d] ++ (a ** b))
SubMul   == Set("submul", reg[Ev.d] -- (a ** b))
Det      == Set("det", (reg[Ev.a] ** reg[Ev.b]) -- (reg[Ev.e] ** reg[Ev.f]))
MaxV     == Set("max", ZPow2(Ev.n) -- 1)
MinV     == Set("min", ZNeg(ZPow2(Ev.n)))

\* q = a / b rounded towards zero, r the rest
IsQuotRem(n, m, q, r) ==
  /\ ZEq(n, (q ** m) ++ r)
  /\ ZLt(ZAbs(r), ZAbs(m))
  /\ ZSgn(r) = 0 \/ ZSgn(r) = ZSgn(n)

DivRem == /\ IsEvent("divrem")
          /\ IsQuotRem(a, b, Ev.q, Ev.r)
          /\ reg' = [reg EXCEPT ![Ev.d] = Ev.q, ![Ev.e] = Ev.r]
Div    == /\ IsEvent("div")
          /\ IsQuotRem(a, b, Ev.v, a -- (Ev.v ** b))
          /\ Put(Ev.v)
DivEq  == /\ IsEvent("diveq")
          /\ IsQuotRem(reg[Ev.d], b, Ev.v, reg[Ev.d] -- (Ev.v ** b))
          /\ Put(Ev.v)
DivI   == /\ IsEvent("divi")
          /\ IsQuotRem(a, Ev.i, Ev.v, a -- (Ev.v ** Ev.i))
          /\ Put(Ev.v)
\* the quotient is logged as a witness; the remainder decides
Mod    == /\ IsEvent("mod")
          /\ IsQuotRem(a, b, Ev.q, Ev.v)
          /\ Put(Ev.v)
\* g divides both (witnesses logged), and is a combination of both (Bezout
\* witnesses logged), so it is a greatest common divisor up to sign.
Gcd    == /\ IsEvent("gcd")
          /\ ZEq(a, Ev.v ** Ev.ka) /\ ZEq(b, Ev.v ** Ev.kb)
          /\ ZEq(Ev.v, (Ev.x ** a) ++ (Ev.y ** b))
          /\ Put(Ev.v)

\* --- observers
CmpAll == /\ IsEvent("cmp")
          /\ LET k == ZCmp(a, b) IN
             /\ Ev.lt = (k < 0) /\ Ev.le = (k <= 0)
             /\ Ev.gt = (k > 0) /\ Ev.ge = (k >= 0)
             /\ Ev.eq = (k = 0) /\ Ev.ne = (k # 0)
             /\ Ev.cmp = k
             /\ Ev.lt0 = (k < 0) /\ Ev.lt1 = (k > 0)      \* LessThan(flip, .)
             /\ Ev.fc0 = (k < 0) /\ Ev.fc1 = (k > 0)      \* FlippableCompare
             /\ (k = 0 => Ev.hash)                        \* equal values, equal hash
          /\ UNCHANGED reg
CmpI   == /\ IsEvent("cmpi")
          /\ LET k == ZCmp(a, Ev.i) IN
             /\ Ev.lt = (k < 0) /\ Ev.le = (k <= 0)
             /\ Ev.gt = (k > 0) /\ Ev.ge = (k >= 0)
             /\ Ev.eq = (k = 0) /\ Ev.ne = (k # 0)
          /\ UNCHANGED reg
Sign   == /\ IsEvent("sign")
          /\ Ev.sg = ZSgn(a)
          /\ Ev.zero = (ZSgn(a) = 0)
          /\ Ev.neg = (ZSgn(a) < 0)
          /\ Ev.am = (IF ZSgn(a) < 0 THEN -1 ELSE 1)
          /\ Ev.se = (IF ZSgn(a) < 0 THEN -1 ELSE 0)
          /\ Ev.am2 = (IF (ZSgn(a) < 0) = (ZSgn(b) < 0) THEN 1 ELSE -1)
          /\ Ev.same = ((ZSgn(a) < 0) = (ZSgn(b) < 0))
          /\ Ev.diff = ((ZSgn(a) < 0) # (ZSgn(b) < 0))
          /\ UNCHANGED reg

RECURSIVE Decimal(_, _)
Decimal(d, acc) == IF d = <<>> THEN acc ELSE Decimal(Tail(d), (acc ** 10) ++ Head(d))
Print  == /\ IsEvent("print")
          /\ Ev.dig # <<>>
          /\ Ev.dig[1] # 0 \/ Len(Ev.dig) = 1
          /\ ZEq(Decimal(Ev.dig, 0), ZAbs(a))
          /\ Ev.neg = (ZSgn(a) < 0)
          /\ UNCHANGED reg

\* low 64 bits, two's complement; the quotient by 2^64 is a witness
Low    == /\ IsEvent("low")
          /\ ZLe(0, Ev.low) /\ ZLt(Ev.low, ZPow2(64))
          /\ ZEq(a, (Ev.hi ** ZPow2(64)) ++ Ev.low)
          /\ ZLe(0, Ev.low32) /\ ZLt(Ev.low32, ZPow2(32))
          /\ ZEq(Ev.low, (Ev.hi32 ** ZPow2(32)) ++ Ev.low32)
          /\ UNCHANGED reg

\* --- BigUInt
UShl   == Set("ushl", a ** ZPow2(Ev.n))
UDivRem == /\ IsEvent("udivrem")
           /\ IsQuotRem(a, b, Ev.q, Ev.r)
           /\ reg' = [reg EXCEPT ![Ev.d] = Ev.q, ![Ev.e] = Ev.r]
USub   == Set("usub", a -- b)
UMul   == Set("umul", a ** Ev.w)
UGe    == Obs("uge", ZCmp(a, b) >= 0)
UAddShl == Set("uaddshl", reg[Ev.d] ++ (Ev.w ** ZPow2(Ev.n)))
USubShl == Set("usubshl", reg[Ev.d] -- (b ** ZPow2(Ev.n)))

\* --- rational helpers: num/od rounded to a multiple of 1/nd
RatSgn(n, d) == ZSgn(n) * ZSgn(d)
\* sign of x1/y1 - x2/y2
RatCmp(x1, y1, x2, y2) ==
  ZCmp(x1 ** y2, x2 ** y1) * ZSgn(y1) * ZSgn(y2)
RoundUp == /\ IsEvent("roundup")
           /\ LET od == reg[Ev.b] nd == reg[Ev.e] IN
              /\ RatCmp(Ev.v, nd, a, od) >= 0
              \* the next representable value below is too small
              /\ RatCmp(Ev.v -- (IF ZSgn(nd) < 0 THEN -1 ELSE 1), nd, a, od) < 0
           /\ Put(Ev.v)
RoundDown == /\ IsEvent("rounddown")
             /\ LET od == reg[Ev.b] nd == reg[Ev.e] IN
                /\ RatCmp(Ev.v, nd, a, od) <= 0
                /\ RatCmp(Ev.v ++ (IF ZSgn(nd) < 0 THEN -1 ELSE 1), nd, a, od) > 0
             /\ Put(Ev.v)
RatLt  == /\ IsEvent("ratcmp")
          /\ LET k == RatCmp(reg[Ev.a], reg[Ev.b], reg[Ev.e], reg[Ev.f]) IN
             /\ Ev.lt = (k < 0) /\ Ev.eq = (k = 0)
          /\ UNCHANGED reg

\* nothing but the destination of an operation changes
ReadAll == /\ IsEvent("readall")
           /\ \A i \in 1..NR : ZEq(Ev.v[i], reg[i])
           /\ UNCHANGED reg

Next == \/ Load \/ Copy \/ Move \/ Add \/ Sub \/ Mul \/ AddEq \/ SubEq \/ MulEq
        \/ AddI \/ SubI \/ MulI \/ AddEqI \/ SubEqI \/ MulEqI \/ Inc \/ Dec
        \/ Neg \/ Negate \/ AbsOp \/ GetAbs \/ UIntAbs \/ Shl \/ AddMul \/ SubMul
        \/ Det \/ MaxV \/ MinV \/ DivRem \/ Div \/ DivEq \/ DivI \/ Mod \/ Gcd
        \/ CmpAll \/ CmpI \/ Sign \/ Print \/ Low
        \/ UShl \/ UDivRem \/ USub \/ UMul \/ UGe \/ UAddShl \/ USubShl
        \/ RoundUp \/ RoundDown \/ RatLt \/ ReadAll
        \/ (AtEnd /\ UNCHANGED reg)

Spec == Init /\ [][Next]_vars
===============================================================================
