----------------------------- MODULE FacetMachine -----------------------------
(* Facets kept in registers, and the operations on them: splitting by a plane,
   the searches behind it, and the edits that must keep the covered region.

   A facet is a record: n = <<nx, ny, nz, d>>, v = its vertices (points),
   ln[i] = the line of side i as <<dx, dy, dz, mx, my, mz>>, tag / cut = data
   attached to side i, and optionally box = its bounding box.                 *)
EXTENDS Geom, Conformance

VARIABLE reg
vars == <<c, l, reg>>

Init == TraceStart /\ reg = <<>>

PEq(a, b) == \A k \in 1..4 : ZEq(a[k], b[k])
Dot(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])
Same3(a, b) == IsZero3(Cross3(a, b)) /\ ZSgn(Dot(a, b)) > 0
N(f) == Len(f.v)
V(f, i) == f.v[((i - 1) % N(f)) + 1]
E_(f, i) == Sub3(V(f, i), V(f, i + 1))

(* strictly simple convex polygon around the normal, sides going forward *)
ConvexPts(n, v) ==
  LET k == Len(v)
      side == TLCEval([i \in 1..k |-> Sub3(v[i], v[Nx(i, k)])])
      inw == TLCEval([i \in 1..k |-> Cross3(n, side[i])])
  IN /\ k >= 3
     /\ ~IsZero3(n)
     /\ \A i \in 1..k : Side(n, v[i]) = 0
     /\ \A i \in 1..k : ~IsZero3(side[i])
     /\ \A i \in 1..k : \A j \in 1..k :
          j = i \/ j = Nx(i, k) \/ (ZSgn(Dot(inw[i], Sub3(v[i], v[j]))) >= 0 /\ ~PEq(v[i], v[j]))
     /\ \A i \in 1..k : \E j \in 1..k : ZSgn(Dot(inw[i], Sub3(v[i], v[j]))) > 0
     /\ \A i \in 1..k : IsZero3(Cross3(side[i], side[Nx(i, k)])) => ZSgn(Dot(side[i], side[Nx(i, k)])) > 0

LineOk(ln, a, b) ==
  LET d == <<ln[1], ln[2], ln[3]>>
      m == Cross3(a, d)
  IN Same3(d, Sub3(a, b)) /\ \A k \in 1..3 : ZEq(ln[k + 3] ** a[4], m[k])

(* box: tight around the vertices, up to one unit of 1/den *)
BoxOk(f) ==
  IF "box" \notin DOMAIN f THEN TRUE ELSE
  LET b == f.box IN
  /\ ZSgn(b.den) > 0
  /\ \A k \in 1..3 :
       LET lo == V(f, b.li[k])
           hi == V(f, b.hi_i[k])
       IN /\ b.li[k] \in 1..N(f) /\ b.hi_i[k] \in 1..N(f)
          /\ \A j \in 1..N(f) : /\ ZLe(lo[k] ** f.v[j][4], f.v[j][k] ** lo[4])
                                /\ ZLe(f.v[j][k] ** hi[4], hi[k] ** f.v[j][4])
          /\ ZLe(b.lo[k] ** lo[4], lo[k] ** b.den) /\ ZLt(lo[k] ** b.den, (b.lo[k] ++ 1) ** lo[4])
          /\ ZLe(hi[k] ** b.den, b.hi[k] ** hi[4]) /\ ZLt((b.hi[k] -- 1) ** hi[4], hi[k] ** b.den)

Good(f) ==
  /\ f.ok
  /\ ConvexPts(f.n, f.v)
  /\ ZSgn(f.n[f.drop + 1]) # 0
  /\ \A i \in 1..N(f) : LineOk(f.ln[i], f.v[i], V(f, i + 1))
  /\ BoxOk(f)

SamePlane(m, n) == Same3(m, n) /\ \A k \in 1..3 : ZEq(m[k] ** n[4], n[k] ** m[4])

(* a rotated by k places is b, vertices and side data *)
RotEq(a, b, k, tags) ==
  /\ N(a) = N(b)
  /\ \A i \in 1..N(a) : PEq(V(a, i + k), b.v[i])
  /\ tags => \A i \in 1..N(a) : LET j == ((i + k - 1) % N(a)) + 1 IN a.tag[j] = b.tag[i] /\ a.cut[j] = b.cut[i]
Cyclic(a, b, tags) == SamePlane(a.n, b.n) /\ \E k \in 0..(N(a) - 1) : RotEq(a, b, k, tags)

Put(i, f) == reg' = (i :> f) @@ reg
Drop(S) == [i \in DOMAIN reg \ S |-> reg[i]]

---------------------------------------------------------------------------
New == /\ IsEvent("new")
       /\ Require(Good(Ev.f))
       /\ Put(Ev.to, Ev.f)

(* the vertices of a half-open index range, counted from 0 modulo n *)
Range(a, b, n) == {(i % n) + 1 : i \in a..(b - 1)}
RangesOk(g, s) ==
  LET n == Len(s) IN
  /\ g[1] <= g[2] /\ g[3] <= g[4] /\ g[2] - g[1] <= n /\ g[4] - g[3] <= n
  /\ Range(g[1], g[2], n) = {i \in 1..n : s[i] < 0}
  /\ Range(g[3], g[4], n) = {i \in 1..n : s[i] > 0}

(* the point of f where its boundary meets the plane h, going from a to b:
   between them, or at b, or at a *)
Meets(h, x, a, b) ==
  /\ Side(h, x) = 0
  /\ IF Side(h, a) = 0 THEN PEq(x, a)
     ELSE IF Side(h, b) = 0 THEN PEq(x, b)
     ELSE /\ IsZero3(Cross3(Sub3(a, b), Sub3(a, x)))
          /\ ZSgn(Dot(Sub3(a, b), Sub3(a, x))) > 0
          /\ ZSgn(Dot(Sub3(b, a), Sub3(b, x))) > 0

(* child: the run of vertices on one side of h, then the two shared points.
   p is the position of the run's first vertex in the child.                 *)
ChildOk(f, h, s, sgn, g, p, n0) ==
  LET n == N(f)
      k == Cardinality({i \in 1..n : s[i] = sgn})
      first == CHOOSE i \in 1..n : s[i] = sgn /\ s[IF i = 1 THEN n ELSE i - 1] # sgn
      At(i) == ((i - 1) % n) + 1          \* index into f
      C(i) == ((i - 1 + n0) % (k + 2)) + 1     \* i-th place of the child, counted from the run
      last == At(first + k - 1)
      before == At(first + n - 1)
      after == At(first + k)
  IN /\ N(g) = k + 2
     /\ SamePlane(f.n, g.n)
     /\ \A i \in 1..k : /\ PEq(g.v[C(i)], f.v[At(first + i - 1)])
                        /\ g.tag[C(i)] = f.tag[At(first + i - 1)]
                        /\ g.cut[C(i)] = f.cut[At(first + i - 1)]
     /\ Meets(h, g.v[C(k + 1)], f.v[last], f.v[after])
     /\ Meets(h, g.v[C(k + 2)], f.v[before], f.v[first])
     /\ g.tag[C(k + 2)] = f.tag[before]
     /\ g.cut[C(k + 1)]

(* side of a point's projection relative to a line of the plane *)
Flat(d, p) == <<p[((d + 1) % 3) + 1], p[((d + 2) % 3) + 1]>>
Side2(h, d, p) == LET q == Flat(d, p) IN ZSgn(((h[1] ** q[1]) ++ (h[2] ** q[2])) -- (h[3] ** p[4]))

Split ==
  /\ IsEvent("split")
  /\ LET f == reg[Ev.from]
         s == TLCEval([i \in 1..N(f) |-> Side(Ev.h, f.v[i])])
         neg == \E i \in 1..N(f) : s[i] < 0
         pos == \E i \in 1..N(f) : s[i] > 0
     IN /\ Require(Ev.neg = neg /\ Ev.pos = pos /\ Ev.on = (~neg /\ ~pos))
        /\ Require(RangesOk(Ev.ranges, s))
        /\ Require("h2" \notin DOMAIN Ev \/
                   LET s2 == TLCEval([i \in 1..N(f) |-> Side2(Ev.h2, Ev.d2, f.v[i])]) IN
                   RangesOk(Ev.lin, s2) /\ RangesOk(Ev.bis, s2))
        /\ IF neg /\ pos
           THEN /\ Require(Good(Ev.A) /\ Good(Ev.B))
                /\ Require(ChildOk(f, Ev.h, s, -1, Ev.A, 0, 0))
                /\ Require(ChildOk(f, Ev.h, s, 1, Ev.B, 0, 1))
                /\ Require(Ev.how = 1 \/ Cyclic(f, Ev.src, TRUE))
                /\ reg' = (Ev.na :> Ev.A) @@ (Ev.nb :> Ev.B) @@ Drop(IF Ev.how = 1 THEN {Ev.from} ELSE {})
           ELSE UNCHANGED reg

---------------------------------------------------------------------------
(* The searches over a facet's vertices.  Values compare along a direction;
   the first of a run of equal extreme vertices is asked for.                *)
Val3(u, p) == <<Dot(u, p), p[4]>>
Val2(v, d, p) == LET q == Flat(d, p) IN <<(v[1] ** q[1]) ++ (v[2] ** q[2]), p[4]>>
VCmp(a, b) == ZCmp(a[1] ** b[2], b[1] ** a[2])

FirstMax(vals, i) ==
  LET n == Len(vals) IN
  /\ i \in 1..n
  /\ \A j \in 1..n : VCmp(vals[i], vals[j]) >= 0
  /\ VCmp(vals[IF i = 1 THEN n ELSE i - 1], vals[i]) < 0
AllEq(vals) == \A j \in 1..Len(vals) : VCmp(vals[1], vals[j]) = 0

Step2(f, d, i) == Flat(d, E_(f, i))
Dir2(v, f, d, i) == LET e == Step2(f, d, i) IN ZSgn((v[1] ** e[1]) ++ (v[2] ** e[2]))

(* going around from `from` (on the sgn side) to `to`: the last not beyond *)
LastOk(s, from, to, sgn, a) ==
  LET n == Len(s)
      k == (to - from) % n
      ok == {t \in 0..(k - 1) : \A u \in 0..t : s[((from + u - 1) % n) + 1] * sgn >= 0}
      t == CHOOSE x \in ok : \A y \in ok : y <= x
      i == ((from + t - 1) % n) + 1
  IN a[2] = i /\ a[1] = s[i]

Search ==
  /\ IsEvent("search")
  /\ LET f == reg[Ev.from]
         n == N(f)
         v3 == TLCEval([i \in 1..n |-> Val3(Ev.v3, f.v[i])])
         v2 == TLCEval([i \in 1..n |-> Val2(Ev.v, Ev.d, f.v[i])])
         zero == ZSgn(Ev.v[1]) = 0 /\ ZSgn(Ev.v[2]) = 0
     IN /\ Require(IF AllEq(v3) THEN Ev.e3 = 0 ELSE FirstMax(v3, Ev.e3))
        /\ Require(IF zero THEN Ev.e2 = 0 ELSE FirstMax(v2, Ev.e2))
        /\ Require(zero \/
             LET s == TLCEval([i \in 1..n |-> Side2(Ev.h2, Ev.d, f.v[i])])
                 up == TLCEval([i \in 1..n |-> LET x == Val2(<<Ev.h2[1], Ev.h2[2]>>, Ev.d, f.v[i]) IN x])
                 \* these two searches may count on past the last vertex
                 pi == ((Ev.ps[2] - 1) % n) + 1
                 ni == ((Ev.ns[2] - 1) % n) + 1
                 down == TLCEval([i \in 1..n |-> <<ZNeg(up[i][1]), up[i][2]>>])
             IN /\ Dir2(Ev.v, f, Ev.d, Ev.opp[1]) > 0
                /\ Dir2(Ev.v, f, Ev.d, Ev.opp[2]) < 0
                /\ Ev.ps[2] \in 1..(2 * n) /\ Ev.ns[2] \in 1..(2 * n)
                /\ IF \E i \in 1..n : s[i] > 0 THEN Ev.ps[1] > 0 /\ s[pi] > 0
                   ELSE Ev.ps[1] = s[pi] /\ FirstMax(up, pi)
                /\ IF \E i \in 1..n : s[i] < 0 THEN Ev.ns[1] < 0 /\ s[ni] < 0
                   ELSE Ev.ns[1] = s[ni] /\ FirstMax(down, ni)
                /\ (Ev.last = <<>>) = ~((\E i \in 1..n : s[i] > 0) /\ (\E i \in 1..n : s[i] < 0))
                /\ (Ev.last = <<>> \/
                     (/\ LastOk(s, ni, pi, -1, <<Ev.last[1], Ev.last[2]>>)
                      /\ LastOk(s, pi, ni, 1, <<Ev.last[3], Ev.last[4]>>))))
  /\ UNCHANGED reg

---------------------------------------------------------------------------
(* Edits. *)
Rotate == /\ IsEvent("rotate")
          /\ Require(Good(Ev.f) /\ SamePlane(reg[Ev.from].n, Ev.f.n) /\ RotEq(reg[Ev.from], Ev.f, Ev.k, TRUE))
          /\ Put(Ev.to, Ev.f)

RECURSIVE LexLt(_, _, _)
LexLt(a, b, k) == IF k > 3 THEN FALSE
                  ELSE LET x == ZCmp(a[k] ** b[4], b[k] ** a[4]) IN x < 0 \/ (x = 0 /\ LexLt(a, b, k + 1))

Sort == /\ IsEvent("sort")
        /\ Require(Good(Ev.f) /\ Cyclic(reg[Ev.from], Ev.f, TRUE))
        /\ Require(\A i \in 2..N(Ev.f) : LexLt(Ev.f.v[1], Ev.f.v[i], 1))
        /\ Put(Ev.to, Ev.f)

Copy == /\ IsEvent("copy")
        /\ Require(Good(Ev.f) /\ Cyclic(reg[Ev.from], Ev.f, TRUE))
        /\ Require(Ev.gone \/ (Good(Ev.src) /\ Cyclic(reg[Ev.from], Ev.src, TRUE)))
        /\ reg' = (Ev.to :> Ev.f) @@ Drop(IF Ev.gone THEN {Ev.from} ELSE {})

Convert == /\ IsEvent("convert")
           /\ Require(Good(Ev.f) /\ Cyclic(reg[Ev.from], Ev.f, FALSE))
           /\ Require(\A i \in 1..N(Ev.f) : Ev.f.tag[i] = 0)
           /\ Put(Ev.to, Ev.f)

Reversed(f) == [n |-> [k \in 1..4 |-> ZNeg(f.n[k])], v |-> [i \in 1..N(f) |-> f.v[N(f) + 1 - i]]]
Invert == /\ IsEvent("invert")
          /\ Require(Good(Ev.f) /\ Cyclic(Reversed(reg[Ev.from]), Ev.f, FALSE))
          /\ Put(Ev.to, Ev.f)

SplitEdge ==
  /\ IsEvent("splitedge")
  /\ LET f == reg[Ev.from]
         Ins(s, x) == SubSeq(s, 1, Ev.e) \o <<x>> \o SubSeq(s, Ev.e + 1, Len(s))
     IN Require(/\ Good(Ev.f)
                /\ SamePlane(f.n, Ev.f.n)
                /\ RotEq([v |-> Ins(f.v, Ev.p), tag |-> Ins(f.tag, f.tag[Ev.e]), cut |-> <<>>], [Ev.f EXCEPT !.cut = <<>>], 0, FALSE)
                /\ \A i \in 1..N(Ev.f) : Ev.f.tag[i] = Ins(f.tag, f.tag[Ev.e])[i])
  /\ Put(Ev.to, Ev.f)

Equal == /\ IsEvent("eq")
         /\ Require(LET same == /\ SamePlane(Ev.f.n, Ev.g.n)
                                /\ N(Ev.f) = N(Ev.g)
                                /\ \E k \in 0..(N(Ev.f) - 1) :
                                     \A i \in 1..N(Ev.f) : LET j == ((i + k - 1) % N(Ev.f)) + 1 IN
                                        PEq(Ev.f.v[j], Ev.g.v[i]) /\ Ev.f.tag[j] = Ev.g.tag[i]
                    IN Ev.r = same /\ Ev.ne = ~same)
         /\ Ev.self /\ Ev.empty
         /\ UNCHANGED reg

(* Merging over side ea of a and side eb of b: the outline of the union, its
   sides in order, without the vertices that have become redundant.          *)
Even(t) == t % 2
Merge ==
  /\ IsEvent("merge")
  /\ LET a == reg[Ev.from]
         b == reg[Ev.other]
         n == N(a)
         m == N(b)
         \* the n-1 sides of a after ea, then the m-1 sides of b after eb
         pts == TLCEval([i \in 1..(n + m - 2) |-> IF i < n THEN V(a, Ev.ea + i) ELSE V(b, Ev.eb + (i - n + 1))])
         tags == TLCEval([i \in 1..(n + m - 2) |-> IF i < n THEN a.tag[((Ev.ea + i - 1) % n) + 1]
                                                        ELSE b.tag[((Ev.eb + (i - n + 1) - 1) % m) + 1]])
         tot == n + m - 2
         Before(i) == IF i = 1 THEN tot ELSE i - 1
         InSide(i) == Sub3(pts[Before(i)], pts[i])
         OutSide(i) == Sub3(pts[i], pts[Nx(i, tot)])
         TurnAt(i) == ZSgn(Dot(a.n, Cross3(InSide(i), OutSide(i))))
         JointOk(i) == TurnAt(i) > 0 \/ (TurnAt(i) = 0 /\ ZSgn(Dot(InSide(i), OutSide(i))) > 0)
         can == Same3(a.n, b.n) /\ JointOk(1) /\ JointOk(n)
         Gone(i) == i \in {1, n} /\ TurnAt(i) = 0 /\ (tags[Before(i)] + tags[i]) % 2 = 0
         RECURSIVE Keep(_)
         Keep(i) == IF i > tot THEN <<>> ELSE (IF Gone(i) THEN <<>> ELSE <<i>>) \o Keep(i + 1)
         keep == TLCEval(Keep(1))
         res == [n |-> a.n, v |-> [i \in 1..Len(keep) |-> pts[keep[i]]], tag |-> [i \in 1..Len(keep) |-> tags[keep[i]]]]
     IN /\ Require(Ev.r = can)
        /\ IF can
           THEN /\ Require(Good(Ev.f))
                /\ Require(SamePlane(a.n, Ev.f.n))
                /\ Require(\E k \in 0..(Len(keep) - 1) :
                      /\ RotEq(res, Ev.f, k, FALSE)
                      /\ \A i \in 1..Len(keep) : LET j == ((i + k - 1) % Len(keep)) + 1 IN
                           res.tag[j] = Ev.f.tag[i] /\ (keep[j] >= n => Ev.f.home[i]))
                /\ Len(Ev.g.v) = 0
                /\ reg' = (Ev.from :> Ev.f) @@ Drop({Ev.other})
           ELSE /\ Require(Cyclic(a, Ev.f, TRUE) /\ Cyclic(b, Ev.g, TRUE))
                /\ UNCHANGED reg

Next == \/ New \/ Split \/ Search \/ Rotate \/ Sort \/ Copy \/ Convert \/ Invert \/ SplitEdge \/ Equal \/ Merge
        \/ (AtEnd /\ UNCHANGED reg)
Spec == Init /\ [][Next]_vars
===============================================================================
