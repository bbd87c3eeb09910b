------------------------------ MODULE CellMachine ------------------------------
(* The region of a BSP node inside a box: the points on the right side of every
   split on the way to the node.  "cell" asks for its whole surface, "sheets"
   for the parts of it that lie on the splits.                                *)
EXTENDS Geom, Conformance

VARIABLE n
vars == <<c, l, n>>
Init == TraceStart /\ n = 0

\* closed half-spaces, as planes the region is on the inner side of
Walls(e) == TLCEval([i \in 1..6 |->
   LET k == (i + 1) \div 2
       s == IF i % 2 = 1 THEN -1 ELSE 1
       D(j) == IF j = k THEN s ** e.den ELSE 0
   IN << D(1), D(2), D(3), IF s > 0 THEN e.hi[k] ELSE ZNeg(e.lo[k]) >>])
Flip4(h) == << ZNeg(h[1]), ZNeg(h[2]), ZNeg(h[3]), ZNeg(h[4]) >>
\* the plane of cut i, normal out of the region
Out(e, i) == IF e.cuts[i][2] = 1 THEN Flip4(e.cuts[i][1]) ELSE e.cuts[i][1]
Bounds(e) == TLCEval(Walls(e) \o [i \in 1..Len(e.cuts) |-> Out(e, i)])

\* -1 strictly inside all of H, 0 on the surface, 1 outside
Place(H, q) == LET s == {Side(H[i], q) : i \in 1..Len(H)}
               IN IF 1 \in s THEN 1 ELSE IF 0 \in s THEN 0 ELSE -1

Cell == /\ IsEvent("cell")
        /\ LET H == Bounds(Ev)
               m == [pts |-> Ev.pts, f |-> Ev.f]
           IN /\ Require(ValidMesh(m))
              /\ Require(ClosedMesh(m))
              \* facets lie on the surface, normals out
              /\ Require(\A i \in 1..Len(Ev.f) : \E j \in 1..Len(H) :
                    LET f == Ev.f[i] IN
                    /\ \A v \in 1..Len(f.v) : Side(H[j], Ev.pts[f.v[v]]) = 0
                    /\ ZSgn(Dot3(f.n, H[j])) > 0)
              /\ Require(\A p \in 1..Len(Ev.pts) : Place(H, Ev.pts[p]) = 0)
              \* and bound the region once
              /\ Require(\A t \in 1..Len(Ev.qs) :
                    LET w == Place(H, Ev.qs[t]) IN
                    w = 0 \/ Winding(m, Ev.qs[t]) = (IF w < 0 THEN 1 ELSE 0))
        /\ n' = n + 1

Within(P, g, p) == \A i \in 1..Len(g.v) : Turn(g.n, P[g.v[i]], P[g.v[Nx(i, Len(g.v))]], p) >= 0

Sheets == /\ IsEvent("sheets")
          /\ LET H == Bounds(Ev)
                 W == Walls(Ev)
                 m == [pts |-> Ev.pts, f |-> Ev.f]
                 K == Len(Ev.cuts)
                 \* the cut a facet lies on
                 Of(f) == {i \in 1..K : /\ \A v \in 1..Len(f.v) : Side(Ev.cuts[i][1], Ev.pts[f.v[v]]) = 0
                                        /\ ZSgn(Dot3(f.n, Out(Ev, i))) > 0}
                 of == TLCEval([i \in 1..Len(Ev.f) |-> Of(Ev.f[i])])
             IN /\ Require(ValidMesh(m))
                /\ Require(\A i \in 1..Len(Ev.f) : Cardinality(of[i]) = 1)
                /\ Require(\A i \in 1..Len(Ev.f) : \A j \in 1..Len(Ev.f) : of[i] = of[j] => i = j)
                /\ Require(\A p \in 1..Len(Ev.pts) : Place(H, Ev.pts[p]) = 0)
                \* a point of a cut inside all other bounds is in the cut's facet
                /\ Require(\A k \in 1..K : \A t \in 1..Len(Ev.on[k]) :
                      LET q == Ev.on[k][t]
                          s == {Side(H[i], q) : i \in (1..Len(H)) \ {6 + k}}
                      IN s = {-1} => \E i \in 1..Len(Ev.f) : k \in of[i] /\ Within(Ev.pts, Ev.f[i], q))
          /\ n' = n + 1

Next == Cell \/ Sheets \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
===============================================================================
