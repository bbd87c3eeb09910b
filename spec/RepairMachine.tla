------------------------------ MODULE RepairMachine -----------------------------
(* Repairing a mesh.  Ev.in are the points given, Ev.f the facets in the order
   they were added: r the ring of its vertices, p the polygons made of it, with
   their plane n, vertices v and the points u these came out at.                 *)
EXTENDS Geom, Conformance

vars == <<c, l>>
Init == TraceStart

V3(a) == <<a[1], a[2], a[3]>>
SamePlane(g, h) == (\A i \in 1..4 : ZEq(g[i], h[i])) \/ (\A i \in 1..4 : ZEq(g[i], ZNeg(h[i])))
On(pl, p) == Side(pl, p) = 0
Set(s) == {s[i] : i \in 1..Len(s)}

\* ---- the first three planes of every vertex
RECURSIVE AddTo(_, _)
AddTo(P, polys) ==
  IF polys = << >> THEN P
  ELSE LET q == Head(polys)
           one(i) == IF Len(P[i]) < 3 /\ i \in Set(q.v) /\ \A k \in 1..Len(P[i]) : ~SamePlane(P[i][k], q.n) THEN Append(P[i], q.n) ELSE P[i]
       IN AddTo(TLCEval([i \in 1..Len(P) |-> one(i)]), Tail(polys))
\* after each of the facets
RECURSIVE Grow(_, _)
Grow(hist, fs) == IF fs = << >> THEN hist
                  ELSE Grow(Append(hist, AddTo(hist[Len(hist)], Head(fs).p)), Tail(fs))

\* ---- where a vertex on these planes goes: the nearest of their common points
Stays(P, p) == \A k \in 1..Len(P) : On(P[k], p)
N2(a) == Dot3(a, a)
Determined(P, p) == \/ Stays(P, p)
                    \/ Len(P) = 1
                    \/ Len(P) = 2 /\ ~IsZero3(Cross3(P[1], P[2]))
                    \/ Len(P) = 3 /\ ZSgn(Dot3(P[1], Cross3(P[2], P[3]))) # 0
\* the angles are not too small
Apart(d2, norms) == ZLe(norms, 400 ** d2)
Clear(P, p) == \/ Stays(P, p)
               \/ Len(P) = 1
               \/ Len(P) = 2 /\ Apart(N2(Cross3(P[1], P[2])), N2(P[1]) ** N2(P[2]))
               \/ Len(P) = 3 /\ (\E d \in {Dot3(P[1], Cross3(P[2], P[3]))} : Apart(d ** d, (N2(P[1]) ** N2(P[2])) ** N2(P[3])))
Nearest(P, p, q) == /\ ZSgn(q[4]) > 0
                    /\ Stays(P, q)
                    /\ IF Stays(P, p) THEN IsZero3(Sub3(p, q))
                       ELSE IF Len(P) = 1 THEN IsZero3(Cross3(Sub3(p, q), P[1]))
                       ELSE Len(P) = 2 => ZSgn(Dot3(Sub3(p, q), Cross3(P[1], P[2]))) = 0

\* ---- the polygons of one facet
Edges(v) == {<<v[i], v[Nx(i, Len(v))]>> : i \in 1..Len(v)}
Copies(ps, e) == Cardinality({k \in 1..Len(ps) : e \in Edges(ps[k].v)})
MakesUp(f) ==
  /\ \A k \in 1..Len(f.p) : LET v == f.p[k].v IN Len(v) >= 3 /\ Cardinality(Set(v)) = Len(v) /\ Set(v) \subseteq Set(f.r)
  /\ \A x \in Set(f.r) : \A y \in Set(f.r) :
       Copies(f.p, <<x, y>>) - Copies(f.p, <<y, x>>)
         = (IF <<x, y>> \in Edges(f.r) THEN 1 ELSE 0) - (IF <<y, x>> \in Edges(f.r) THEN 1 ELSE 0)
\* the normal at the first corner of the (strictly convex) ring
Way(in, r) == Cross3(Sub3(in[r[1]], in[r[2]]), Sub3(in[r[1]], in[r[3]]))
Sees(k, w) == ZSgn(Dot3(k, w)) > 0
\* (the plane was found from places of the vertices before or after they were moved)
Faces(in, out, f) == \E w \in {Way(in, f.r)} : \E z \in {Way(out, f.r)} :
                       \A k \in 1..Len(f.p) : Sees(f.p[k].n, w) \/ Sees(f.p[k].n, z)
Planar(pts, f) == \A k \in 1..Len(f.p) : \A i \in 1..Len(f.p[k].u) : On(f.p[k].n, pts[f.p[k].u[i]])
\* half of a 64 bit word
Large(n) == \E i \in 1..4 : ~ZLt(ZAbs(n[i]), 2147483647)
\* only a facet with too many vertices that cannot move any more is split, or one with a large plane
Forced(P, pts, f) == Len(f.p) = 1 \/ Large(f.p[1].n) \/ \E i \in Set(f.r) : Len(P[i]) = 3 /\ ~On(f.p[1].n, pts[i])

Repair ==
  /\ IsEvent("repair")
  /\ Require(Ev.grouped)
  /\ LET in == Ev.in  pts == Ev.pts  fs == Ev.f
         N == Len(in)
     IN \E hist \in { Grow(<< [i \in 1..N |-> << >>] >>, fs) } :
        \E P \in { hist[Len(hist)] } :
        \E use \in { TLCEval([i \in 1..N |-> UNION UNION { { {fs[k].p[j].u[m] : m \in {x \in 1..Len(fs[k].p[j].v) : fs[k].p[j].v[x] = i}} : j \in 1..Len(fs[k].p) } : k \in 1..Len(fs) }]) } :
        \E out \in { TLCEval([i \in 1..N |-> IF use[i] = {} THEN 1 ELSE CHOOSE x \in use[i] : TRUE]) } :
        \E sure \in { \A i \in 1..N : Determined(P[i], in[i]) } :
        \E clear \in { sure /\ \A i \in 1..N : Clear(P[i], in[i]) } :
          \* (with small angles a vertex can go far: then it is only known which is which where Ev.told)
          /\ Require(Ev.told \/ clear =>
               /\ \A k \in 1..Len(fs) : MakesUp(fs[k])
               /\ \A i \in 1..N : Cardinality(use[i]) = 1)         \* every vertex comes out at one point
          /\ Require((Ev.told \/ clear) /\ sure =>
               /\ \A k \in 1..Len(fs) : Planar(pts, fs[k])
               /\ \A i \in 1..N : Nearest(P[i], in[i], pts[out[i]])
               /\ \A k \in 1..Len(fs) : Forced(hist[k], [i \in 1..N |-> pts[out[i]]], fs[k]))
          /\ Require(clear => \A k \in 1..Len(fs) : Faces(in, [i \in 1..N |-> pts[out[i]]], fs[k]))
  /\ Require(\* equal points are one vertex
             /\ Ev.unique = Len(Ev.in)
             /\ Ev.valid
             /\ \A i \in 1..Len(Ev.has) : Ev.has[i]
             /\ \A i \in 1..Len(Ev.absent) : ~Ev.absent[i])

None == IsEvent("none")
Next == Repair \/ None \/ AtEnd
Spec == Init /\ [][Next]_vars
=================================================================================
