---------------------------- MODULE GeometryMachine ----------------------------
(* Points, vectors, half-spaces and lines with exact rational coordinates.

   Objects are homogeneous: a point <<x, y, z, w>> with w # 0 of either sign, a
   half-space <<x, y, z, d>> (its plane is n.p = d, the positive side n.p > d),
   a line <<d, m>> with direction d and moment m = p x d for every p on it.
   Each kind denotes a set of points or a direction; every construction and
   predicate is decided on what the objects denote.                           *)
EXTENDS Geom, Conformance

vars == <<c, l>>
Init == TraceStart

---------------------------------------------------------------------------
V3(a) == <<a[1], a[2], a[3]>>
\* the representation with w > 0
Pos(p) == IF ZSgn(p[Len(p)]) < 0 THEN [i \in 1..Len(p) |-> ZNeg(p[i])] ELSE p
Ok(p) == ZSgn(p[Len(p)]) # 0
Vq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : ZEq(a[i], b[i])
Dot(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])
Dot2(a, b) == (a[1] ** b[1]) ++ (a[2] ** b[2])
Det2(a, b) == (a[1] ** b[2]) -- (a[2] ** b[1])
Scl(a, k) == [i \in 1..Len(a) |-> a[i] ** k]
Plus(a, b) == [i \in 1..Len(a) |-> a[i] ++ b[i]]
Minus(a, b) == [i \in 1..Len(a) |-> a[i] -- b[i]]
Neg(a) == [i \in 1..Len(a) |-> ZNeg(a[i])]
Zero(a) == \A i \in 1..Len(a) : ZSgn(a[i]) = 0

\* vectors a, b (not zero) have the same direction / lie on one line
Par(a, b) == \A i \in 1..Len(a) : \A j \in (i + 1)..Len(a) : ZEq(a[i] ** b[j], a[j] ** b[i])
Along(a, b) == Par(a, b) /\ ZSgn(ZSumSeq([i \in 1..Len(a) |-> a[i] ** b[i]])) > 0

\* the same point
Pt(p, q) == LET n == Len(p) IN Ok(p) /\ Ok(q) /\ \A i \in 1..(n - 1) : ZEq(p[i] ** q[n], q[i] ** p[n])
\* order of coordinate k
CmpK(p, q, k) == LET a == Pos(p)
                     b == Pos(q)
                     n == Len(p)
                 IN ZCmp(a[k] ** b[n], b[k] ** a[n])
\* order by the listed coordinates, first difference decides
RECURSIVE LexLt(_, _, _)
LexLt(p, q, ks) == IF ks = <<>> THEN FALSE
                   ELSE LET s == CmpK(p, q, Head(ks))
                        IN IF s # 0 THEN s < 0 ELSE LexLt(p, q, Tail(ks))

\* side of a point w.r.t. a half-space
At3(h, p) == Side(h, Pos(p))
At2(h, p) == LET q == Pos(p) IN ZSgn(Dot2(h, q) -- (h[3] ** q[3]))

\* the same half-space: proportional by a positive factor
SameHalf(g, h) == Along(g, h) /\ ~Zero([i \in 1..(Len(g) - 1) |-> g[i]])
FlipHalf(h) == Neg(h)

\* seen along dimension d (0, 1 or 2): the remaining coordinates in cyclic order
Drop(v, d) == << v[((d + 1) % 3) + 1], v[((d + 2) % 3) + 1] >>
DropP(p, d) == << p[((d + 1) % 3) + 1], p[((d + 2) % 3) + 1], p[4] >>

\* a point p on the line l: p x d = m w
OnLine(ln, p) == Vq(Cross3(p, ln.d), Scl(ln.m, p[4]))
Ln(a) == [d |-> <<a[1], a[2], a[3]>>, m |-> <<a[4], a[5], a[6]>>]
\* the line inside the plane
InPlane(ln, h) == ZSgn(Dot(ln.d, h)) = 0 /\ Vq(Cross3(ln.m, V3(h)), Scl(ln.d, h[4]))
SameLine(a, b) == Par(a, b)

Collinear(a, b, d) == IsZero3(Cross3(Sub3(a, b), Sub3(a, d)))

---------------------------------------------------------------------------
(* constructions *)
Plane3 ==
  /\ IsEvent("plane3")
  /\ Require(LET a == Pos(Ev.a)
                 b == Pos(Ev.b)
                 d == Pos(Ev.c)
             IN /\ Ev.valid = ~Collinear(a, b, d)
                /\ Ev.valid => /\ Along(V3(Ev.h), Cross3(Sub3(b, d), Sub3(b, a)))
                               /\ Side(Ev.h, a) = 0 /\ Side(Ev.h, b) = 0 /\ Side(Ev.h, d) = 0)
PlaneNP == /\ IsEvent("planenp")
           /\ Require(Along(V3(Ev.h), Ev.n) /\ At3(Ev.h, Ev.a) = 0)
Line2 ==
  /\ IsEvent("line2")
  /\ Require(/\ Ev.valid = ~Pt(Ev.a, Ev.b)
             /\ Ev.valid => LET n == Ln(Ev.l) IN /\ Along(n.d, Sub3(Pos(Ev.a), Pos(Ev.b)))
                                                 /\ OnLine(n, Ev.a) /\ OnLine(n, Ev.b))
LineHH ==
  /\ IsEvent("linehh")
  /\ Require(LET x == Cross3(V3(Ev.g), V3(Ev.h))
                 n == Ln(Ev.l)
             IN /\ Ev.valid = ~IsZero3(x)
                /\ Ev.valid => Along(n.d, x) /\ InPlane(n, Ev.g) /\ InPlane(n, Ev.h))
Meet ==
  /\ IsEvent("meet")
  /\ Require(LET n == Ln(Ev.l)
             IN /\ Ev.valid = (ZSgn(Dot(n.d, Ev.h)) # 0)
                /\ Ev.valid => Ok(Ev.p) /\ At3(Ev.h, Ev.p) = 0 /\ OnLine(n, Ev.p))
\* a line seen along dimension d: the positive side is to its left
Shadow ==
  /\ IsEvent("shadow")
  /\ Require(LET n == Ln(Ev.l)
                 e == Drop(n.d, Ev.d)
                 p0 == Cross3(n.d, n.m)
                 o == DropP(<<p0[1], p0[2], p0[3], Dot(n.d, n.d)>>, Ev.d)
             IN /\ Ev.valid = ~Zero(e)
                /\ Ev.valid => /\ Along(<<Ev.h[1], Ev.h[2]>>, <<ZNeg(e[2]), e[1]>>)
                               /\ At2(Ev.h, o) = 0)
Lift ==
  /\ IsEvent("lift")
  /\ Require(Ok(Ev.q) /\ At3(Ev.h, Ev.q) = 0 /\ Pt(DropP(Ev.q, Ev.d), Ev.p))
Extrude ==
  /\ IsEvent("extrude")
  /\ Require(LET u == Minus(Ev.b, Ev.a)
             IN /\ Zero(u) \/ Along(<<Ev.h2[1], Ev.h2[2]>>, <<ZNeg(u[2]), u[1]>>)
                /\ At2(Ev.h2, Ev.a) = 0 /\ At2(Ev.h2, Ev.b) = 0
                /\ Vq(Ev.h3, Ev.h2))
\* coordinate d is more than n[1] / n[2] on the positive side if n[2] > 0,
\* else on the negative side
Axis ==
  /\ IsEvent("axis")
  /\ Require(LET f == Pos(Ev.n)
                 h == <<IF Ev.d = 0 THEN f[2] ELSE 0, IF Ev.d = 1 THEN f[2] ELSE 0,
                        IF Ev.d = 2 THEN f[2] ELSE 0, f[1]>>
             IN SameHalf(Ev.h, IF ZSgn(Ev.n[2]) > 0 THEN h ELSE FlipHalf(h)))

---------------------------------------------------------------------------
(* changes of the representation *)
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
RECURSIVE GcdAll(_)
GcdAll(s) == IF s = <<>> THEN 0 ELSE GcdI(GcdAll(Tail(s)), z_Abs(Head(s)))
Lowest(v) == (\A i \in 1..Len(v) : ~z_IsBig(v[i])) => GcdAll(v) = 1

HChange == /\ IsEvent("hchange")
           /\ Require(/\ SameHalf(Ev.red, Ev.g) /\ Lowest(Ev.red)
                      /\ SameHalf(Ev.neg, FlipHalf(Ev.g)) /\ SameHalf(Ev.neg2, FlipHalf(Ev.g)))
PReduce == /\ IsEvent("preduce")
           /\ Require(Pt(Ev.red, Ev.p) /\ Lowest(Ev.red) /\ Ev.hash)
LChange == /\ IsEvent("lchange")
           /\ Require(/\ Along(Ev.red, Ev.l) /\ Lowest(Ev.red)
                      /\ Along(Ev.neg, Neg(Ev.l)) /\ Along(Ev.neg2, Neg(Ev.l)))
VReduce == /\ IsEvent("vreduce")
           /\ Require(Along(Ev.red, Ev.v) /\ Lowest(Ev.red))
\* q = p + v / k
Offset == /\ IsEvent("offset")
          /\ Require(Pt(Ev.q, <<(Ev.p[1] ** Ev.k) ++ (Ev.v[1] ** Ev.p[4]), (Ev.p[2] ** Ev.k) ++ (Ev.v[2] ** Ev.p[4]),
                                (Ev.p[3] ** Ev.k) ++ (Ev.v[3] ** Ev.p[4]), Ev.p[4] ** Ev.k>>))
\* v / den = p - q
Difference == /\ IsEvent("diff")
              /\ Require(Pt(<<Ev.v[1], Ev.v[2], Ev.v[3], Ev.den>>,
                            <<(Ev.p[1] ** Ev.q[4]) -- (Ev.q[1] ** Ev.p[4]), (Ev.p[2] ** Ev.q[4]) -- (Ev.q[2] ** Ev.p[4]),
                              (Ev.p[3] ** Ev.q[4]) -- (Ev.q[3] ** Ev.p[4]), Ev.p[4] ** Ev.q[4]>>))
PVec == /\ IsEvent("pvec")
        /\ Require(/\ Vq(Ev.sub, Minus(V3(Ev.p), V3(Ev.q)))
                   /\ Vq(V3(Ev.add), Plus(V3(Ev.p), Ev.v))
                   /\ Vq(V3(Ev.minus), Minus(V3(Ev.p), Ev.v))
                   /\ Vq(V3(Ev.neg), Neg(V3(Ev.p))))

---------------------------------------------------------------------------
(* predicates *)
Sides ==
  /\ IsEvent("side")
  /\ Require(LET s(v, on, h, p) == v = At3(h, p) /\ on = (At3(h, p) = 0)
                 s2(v, on, h, p) == v = At2(h, p) /\ on = (At2(h, p) = 0)
             IN /\ s(Ev.cp, Ev.onp, Ev.h, Ev.p) /\ s(Ev.cq, Ev.oq, Ev.h, Ev.q)
                /\ Ev.valid
                /\ Pt(Ev.p2, DropP(Ev.p, Ev.d)) /\ Pt(Ev.q2, DropP(Ev.q, Ev.d))
                /\ s2(Ev.c2p, Ev.o2p, Ev.h2, Ev.p2) /\ s2(Ev.c2q, Ev.o2q, Ev.h2, Ev.q2))
\* order of parallel planes along g's normal: -1 if the plane of g comes before
\* that of h (the comment in half_space3.h has it reversed; its test does not)
CmpPlanes(g, h) ==
  LET k == CHOOSE i \in 1..3 : ZSgn(h[i]) # 0
      p == [i \in 1..4 |-> IF i = k THEN h[4] ELSE IF i = 4 THEN h[k] ELSE 0]   \* a point of h
  IN -At3(g, p)
HalfHalf ==
  /\ IsEvent("hh")
  /\ Require(LET g == Ev.g
                 h == Ev.h
             IN /\ Ev.eq = SameHalf(g, h) /\ Ev.ne = ~SameHalf(g, h)
                /\ Ev.so = (SameHalf(g, h) \/ SameHalf(g, FlipHalf(h)))
                /\ IF IsZero3(Cross3(V3(g), V3(h))) THEN Ev.cmp = CmpPlanes(g, h) ELSE Ev.cmp = 9
                /\ "eq2" \in DOMAIN Ev =>
                     /\ Ev.eq2 = SameHalf(Ev.s2, Ev.t2) /\ Ev.ne2 = ~SameHalf(Ev.s2, Ev.t2)
                     /\ Ev.line2 = Par(Ev.s2, Ev.t2))
LineTests ==
  /\ IsEvent("line")
  /\ Require(LET n == Ln(Ev.l)
             IN /\ Ev.eq = Along(Ev.l, Ev.k) /\ Ev.ne = ~Along(Ev.l, Ev.k)
                /\ Ev.onp = OnLine(n, Ev.p) /\ Ev.onq = OnLine(n, Ev.q)
                /\ Ev.onh = InPlane(n, Ev.h))
PointPoint ==
  /\ IsEvent("pp")
  /\ Require(LET a == Ev.a
                 b == Ev.b
                 d == Ev.d
             IN /\ Ev.eq = Pt(a, b) /\ Ev.ne = ~Pt(a, b)
                /\ Ev.eqq = Pt(a, Ev.q) /\ Ev.neq = ~Pt(a, Ev.q) /\ Ev.qeq = Pt(a, Ev.q)
                /\ Ev.qs = Pt(Ev.q, Ev.s) /\ Ev.qns = ~Pt(Ev.q, Ev.s)
                /\ Ev.lex = LexLt(a, b, <<1, 2, 3>>) /\ Ev.lex2 = Ev.lex
                /\ Ev.top = LexLt(a, b, <<3, 2, 1>>)
                /\ Ev.lexq = LexLt(Ev.q, Ev.s, <<1, 2, 3>>)
                /\ \A k \in 1..3 : /\ Ev.cc[k] = CmpK(a, b, k)
                                   /\ Ev.lt[k] = (CmpK(a, b, k) < 0)
                                   /\ Ev.ec[k] = (CmpK(a, b, k) = 0)
                                   /\ Ev.cq[k] = CmpK(Ev.q, Ev.s, k)
                                   /\ Ev.eq3[k] = (CmpK(Ev.q, Ev.s, k) = 0)
                /\ Ev.lexd = LexLt(DropP(a, d), DropP(b, d), <<1, 2>>)
                /\ Ev.eqd = Pt(DropP(a, d), DropP(b, d)) /\ Ev.ned = ~Ev.eqd
                /\ Ev.eqz = Pt(DropP(a, d), DropP(Ev.q, d)) /\ Ev.nez = ~Ev.eqz /\ Ev.zeq = Ev.eqz)
\* turn at b from a to c, seen along dimension d
TwistDir(a, b, e, d) == ZSgn(Det2(Drop(Sub3(Pos(b), Pos(a)), d), Drop(Sub3(Pos(b), Pos(e)), d)))
Twist ==
  /\ IsEvent("twist")
  /\ Require(/\ Ev.t = TwistDir(Ev.a, Ev.b, Ev.c, Ev.d) /\ Ev.tr = Ev.t
             /\ Ev.u = TwistDir(Ev.x, Ev.y, Ev.z, Ev.d) /\ Ev.ur = Ev.u)

\* sign of a + b e + c e^2 for an infinitesimal e > 0
Eps(a, b, d) == IF ZSgn(a) # 0 THEN ZSgn(a) ELSE IF ZSgn(b) # 0 THEN ZSgn(b) ELSE ZSgn(d)
\* bivectors u, v under the shear z' = z + e y + e^2 x, compared in the xy plane
Sheared(u, v) == Eps((u[1] ** v[2]) -- (u[2] ** v[1]),
                     (u[3] ** v[1]) -- (u[1] ** v[3]),
                     (u[2] ** v[3]) -- (u[3] ** v[2]))
Vec ==
  /\ IsEvent("vec")
  /\ Require(LET a == Ev.a
                 b == Ev.b
             IN /\ ZEq(Ev.dot, Dot(a, b)) /\ Vq(Ev.cross, Cross3(a, b))
                /\ Vq(Ev.had, [i \in 1..3 |-> a[i] ** b[i]]) /\ Vq(Ev.hs, [i \in 1..3 |-> a[i] ** a[i]])
                /\ ZEq(Ev.sq, Dot(a, a))
                /\ Vq(Ev.sum, Plus(a, b)) /\ Vq(Ev.acc, Plus(a, b)) /\ Vq(Ev.dif, Minus(a, b))
                /\ Vq(Ev.sc, Scl(a, Ev.k)) /\ Vq(Ev.sc2, Scl(a, Ev.k))
                /\ Vq(Ev.neg, Neg(a)) /\ Vq(Ev.neg2, Neg(a))
                /\ Ev.eq = Vq(a, b) /\ Ev.ne = ~Vq(a, b) /\ Ev.zero = Zero(a)
                /\ "same" \in DOMAIN Ev => /\ Ev.same = Along(a, b)
                                           /\ Ev.so = Par(a, b)
                                           /\ ZSgn(a[Ev.first + 1]) # 0
                                           /\ \A i \in 1..Ev.first : ZSgn(a[i]) = 0
                /\ \A d \in 0..2 : Vq(Ev.drops[2 * d + 1], Drop(a, d)) /\ Vq(Ev.drops[2 * d + 2], Drop(a, d))
                /\ Ev.rxy = Sheared(a, b))

\* rotation from the x axis: in [0, 1/2) or [1/2, 1)
Lower(v) == ZSgn(v[2]) < 0 \/ (ZSgn(v[2]) = 0 /\ ZSgn(v[1]) < 0)
RotLt(a, b) == IF Lower(a) # Lower(b) THEN Lower(b) ELSE ZSgn(Det2(a, b)) > 0
HalfRotLt(a, b) == RotLt(IF Lower(a) THEN Neg(a) ELSE a, IF Lower(b) THEN Neg(b) ELSE b)
Vec2 ==
  /\ IsEvent("vec2")
  /\ Require(LET a == Ev.a
                 b == Ev.b
             IN /\ ZEq(Ev.dot, Dot2(a, b)) /\ ZEq(Ev.cross, Det2(a, b)) /\ ZEq(Ev.sq, Dot2(a, a))
                /\ Vq(Ev.perp, <<ZNeg(a[2]), a[1]>>) /\ Vq(Ev.sw, <<a[2], a[1]>>)
                /\ Vq(Ev.neg, Neg(a)) /\ Vq(Ev.dif, Minus(a, b)) /\ Vq(Ev.sc, Scl(a, Ev.k))
                /\ Ev.same = Along(a, b) /\ Ev.so = Par(a, b) /\ Ev.eq = Vq(a, b)
                /\ Ev.rot = RotLt(a, b) /\ Ev.rotc = Ev.rot
                /\ Ev.half = HalfRotLt(a, b) /\ Ev.halfc = Ev.half)

\* a strict weak order that puts two half-spaces level iff they are the same
Order ==
  /\ IsEvent("order")
  /\ Require(LET n == Len(Ev.hs)
                 same == TLCEval([i \in 1..n |-> [j \in 1..n |-> SameHalf(Ev.hs[i], Ev.hs[j])]])
             IN /\ \A i \in 1..n : \A j \in 1..n :
                     IF same[i][j] THEN ~Ev.lt[i][j] ELSE Ev.lt[i][j] # Ev.lt[j][i]
                /\ \A i \in 1..n : \A j \in 1..n : \A k \in 1..n :
                     Ev.lt[i][j] /\ Ev.lt[j][k] => Ev.lt[i][k]
                /\ Ev.size = Cardinality({i \in 1..n : \A j \in 1..(i - 1) : ~same[i][j]}))

Next == \/ Plane3 \/ PlaneNP \/ Line2 \/ LineHH \/ Meet \/ Shadow \/ Lift \/ Extrude \/ Axis
        \/ HChange \/ PReduce \/ LChange \/ VReduce \/ Offset \/ Difference \/ PVec
        \/ Sides \/ HalfHalf \/ LineTests \/ PointPoint \/ Twist \/ Vec \/ Vec2 \/ Order
        \/ AtEnd
Spec == Init /\ [][Next]_vars
===============================================================================
