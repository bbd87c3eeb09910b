------------------------------ MODULE BoxMachine ------------------------------
(* Axis aligned boxes [lo/den, hi/den] and the questions they answer.         *)
EXTENDS Geom, Conformance

vars == <<c, l>>
Init == TraceStart

PEq(a, b) == \A k \in 1..4 : ZEq(a[k], b[k])
Dot(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])

(* position of a coordinate p/w in [lo/den, hi/den]: -1, 0 on the end, 1 inside *)
Loc(lo, hi, den, p, w) ==
  LET a == ZCmp(p ** den, lo ** w)
      b == ZCmp(hi ** w, p ** den)
  IN IF a < 0 \/ b < 0 THEN -1 ELSE IF a = 0 \/ b = 0 THEN 0 ELSE 1
In(e, p) == \A k \in 1..3 : Loc(e.lo[k], e.hi[k], e.den, p[k], p[4]) >= 0
OnBorder(e, p) == In(e, p) /\ \E k \in 1..3 : Loc(e.lo[k], e.hi[k], e.den, p[k], p[4]) = 0

(* the eight corners; the den is common to all of them *)
Corner(e, i) == << IF i % 2 = 0 THEN e.lo[1] ELSE e.hi[1],
                   IF (i \div 2) % 2 = 0 THEN e.lo[2] ELSE e.hi[2],
                   IF (i \div 4) % 2 = 0 THEN e.lo[3] ELSE e.hi[3], e.den >>
Pow(k) == <<1, 2, 4>>[k]
Edges == {<<i, k>> : i \in 0..7, k \in 1..3} \cap {x \in (0..7) \X (1..3) : (x[1] \div Pow(x[2])) % 2 = 0}

(* q = the point where the edge between corners a and b (one coordinate k
   differs) meets the plane h: same other coordinates, and on the plane.     *)
IsCrossing(q, a, b, k, h) ==
  /\ Side(h, q) = 0
  /\ \A j \in (1..3) \ {k} : ZEq(q[j] ** a[4], a[j] ** q[4])
  /\ ZLt(a[k] ** q[4], q[k] ** a[4]) /\ ZLt(q[k] ** a[4], b[k] ** q[4])
SamePt(p, q) == \A k \in 1..3 : ZEq(p[k] ** q[4], q[k] ** p[4])

SamePlane(m, n) == /\ IsZero3(Cross3(m, n)) /\ ZSgn(Dot(m, n)) > 0
                   /\ \A k \in 1..3 : ZEq(m[k] ** n[4], n[k] ** m[4])

CutOk(e, h, cut) ==
  LET s == TLCEval([i \in 0..7 |-> Side(h, Corner(e, i))])
      zero == {i \in 0..7 : s[i] = 0}
      cross == {x \in Edges : s[x[1]] * s[x[1] + Pow(x[2])] < 0}
      cnt == Cardinality(zero) + Cardinality(cross)
      n == Len(cut.v)
      facet == [n |-> cut.n, v |-> [i \in 1..n |-> i]]
  IN IF cnt < 3 THEN n = 0
     ELSE /\ n = cnt
          /\ cut.ok
          /\ SamePlane(h, cut.n)
          /\ \A i \in zero : \E j \in 1..n : SamePt(Corner(e, i), cut.v[j])
          /\ \A x \in cross : \E j \in 1..n : IsCrossing(cut.v[j], Corner(e, x[1]), Corner(e, x[1] + Pow(x[2])), x[2], h)
          /\ \A i \in 1..n : \A j \in (i + 1)..n : ~SamePt(cut.v[i], cut.v[j])
          /\ ValidFacet(cut.v, facet) /\ ForwardFacet(cut.v, facet)

SideOk(e, h, r) ==
  LET s == {Side(h, Corner(e, i)) : i \in 0..7}
  IN r = IF s = {-1} THEN -1 ELSE IF s = {1} THEN 1 ELSE 0

Full(e) == \A k \in 1..3 : ZLt(e.lo[k], e.hi[k])

(* the walls: six outward facets with the box's corners *)
WallsOk(e) ==
  LET m == [pts |-> e.wpts, f |-> e.wf] IN
  /\ Len(m.f) = 6
  /\ ValidMesh(m)
  /\ ClosedMesh(m)
  /\ \A i \in 1..6 : Len(m.f[i].v) = 4
  /\ \A i \in 1..Len(m.pts) : \E k \in 0..7 : SamePt(m.pts[i], Corner(e, k))
  /\ \A i \in 1..6 : \A k \in 0..7 : Side(m.f[i].n, Corner(e, k)) <= 0

SameBox(e) == \A k \in 1..3 : ZEq(e.lo[k] ** e.den2, e.lo2[k] ** e.den) /\ ZEq(e.hi[k] ** e.den2, e.hi2[k] ** e.den)

(* the length lm * 2^le squared is (diagonal)^2 up to a relative 2^-45 *)
Sum2(e) == ((((e.hi[1] -- e.lo[1]) ** (e.hi[1] -- e.lo[1])) ++ ((e.hi[2] -- e.lo[2]) ** (e.hi[2] -- e.lo[2])))
              ++ ((e.hi[3] -- e.lo[3]) ** (e.hi[3] -- e.lo[3])))
DiagOk(e) ==
  LET x == (e.lm ** e.lm) ** (e.den ** e.den)       \* times 2^(2 le)
      a == IF e.le >= 0 THEN x ** ZPow2(2 * e.le) ELSE x
      b == IF e.le >= 0 THEN Sum2(e) ELSE Sum2(e) ** ZPow2(-2 * e.le)
  IN ZLe(ZAbs(a -- b) ** ZPow2(45), b)

Box ==
  /\ IsEvent("box")
  /\ Require(\A i \in 1..Len(Ev.pts) : Ev.in[i] = In(Ev, Ev.pts[i]) /\ Ev.bord[i] = OnBorder(Ev, Ev.pts[i]))
  /\ Require(\A i \in 1..Len(Ev.pts3) : Ev.in3[i] = In(Ev, Ev.pts3[i]) /\ Ev.bord3[i] = OnBorder(Ev, Ev.pts3[i]))
  /\ Require(\A i \in 1..Len(Ev.planes) : SideOk(Ev, Ev.planes[i], Ev.sides[i]))
  /\ Require(\A i \in 1..Len(Ev.cuts) : CutOk(Ev, Ev.planes[i], Ev.cuts[i]))
  /\ Require(Full(Ev) => WallsOk(Ev))
  /\ Ev.same /\ ~Ev.samene
  /\ Require(Ev.eq = SameBox(Ev))
  /\ Require(SamePt(Ev.min, Corner(Ev, 0)) /\ SamePt(Ev.max, Corner(Ev, 7)))
  /\ Require(DiagOk(Ev))
  /\ Require(ZEq(Ev.diag2 ** (Ev.den ** Ev.den), Sum2(Ev) ** (Ev.bden ** Ev.bden)))
  /\ Ev.none = FALSE

Next == Box \/ AtEnd
Spec == Init /\ [][Next]_vars
===============================================================================
