------------------------------ MODULE FloatMachine ------------------------------
(* Recorded conversions between doubles and rational points.  A double is
   <<m, e>> (m * 2^e), a point <<x, y, z, w>>.                                   *)
EXTENDS Conformance, Floats

VARIABLE done
vars == <<c, l, done>>
Init == TraceStart /\ done = 0

Coord(p, i) == Pos(<<p[i], p[4]>>)
Exact == /\ IsEvent("exact") /\ UNCHANGED done
         /\ Require(ZSgn(Ev.p[4]) # 0)
         /\ Require(\A i \in 1..3 : SameRat(Coord(Ev.p, i), Rat(Ev.d[i])))
         \* and back, also from other representations of the same point
         /\ Require(\A k \in 1..Len(Ev.back) : \A i \in 1..3 : IsDouble(Ev.back[k][i]) /\ SameRat(Rat(Ev.back[k][i]), Rat(Ev.d[i])))
Quantize == /\ IsEvent("quantize") /\ UNCHANGED done
            /\ Require(ZSgn(Ev.p[4]) # 0)
            /\ Require(\A i \in 1..3 : Quantized(Ev.d[i], Coord(Ev.p, i), Ev.g, Ev.k[i]))
\* rational to double; ok says that equal doubles compare and hash equal, and others do not compare equal
Back == /\ IsEvent("back") /\ UNCHANGED done
        /\ Require(\A i \in 1..3 : InLastPlace(Ev.d[i], Coord(Ev.p, i)))
        /\ Require(Ev.ok)
\* an integer to a double, and to a long double with its 64 bit mantissa
Number == /\ IsEvent("number") /\ UNCHANGED done
          /\ Require(InLastPlace(Ev.d, <<Ev.n, 1>>))
          /\ Require(ZLt(ZAbs(Ev.ld[1]), ZPow2(64)) /\ (Ev.ld[2] = 0 \/ ZLe(ZPow2(63), ZAbs(Ev.ld[1]))))
          /\ Require(Within(Rat(Ev.ld), <<Ev.n, 1>>, 1, 1, Ev.ld[2]))
\* the length of a diagonal: its square within a relative error of 2^-49
Diagonal == /\ IsEvent("diagonal") /\ UNCHANGED done
            /\ Require(\E a \in { Rat(Ev.d) } : \E t \in { <<ZMul(a[1], a[1]), ZMul(a[2], a[2])>> } :
                  /\ ZSgn(a[1]) >= 0
                  /\ ZLe(ZMul(ZPow2(49), ZAbs(ZSub(ZMul(t[1], Ev.sq[2]), ZMul(Ev.sq[1], t[2])))), ZMul(Ev.sq[1], t[2])))

Next == Exact \/ Quantize \/ Back \/ Number \/ Diagonal \/ (AtEnd /\ UNCHANGED done)
Spec == Init /\ [][Next]_vars
=================================================================================
