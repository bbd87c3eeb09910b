--------------------------- MODULE DecomposeMachine ---------------------------
(* Cutting outlines.  An outline is a closed ring of points, in any order.  The
   pieces are right when their directed sides add up to the outline: in a plane
   a sum of regions is determined by its boundary, so the winding number of the
   pieces is that of the outline at every point of the plane, and out of a plane
   the pieces are a surface spanning the outline.                              *)
EXTENDS Geom, Conformance

VARIABLE n
vars == <<c, l, n>>
Init == TraceStart /\ n = 0

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* without repeated neighbours
Clean(s) == LET keep == {i \in 1..Len(s) : s[i] # s[Nx(i, Len(s))]}
            IN SelectSeq([i \in 1..Len(s) |-> IF i \in keep THEN s[i] ELSE 0], LAMBDA x : x # 0)
Ring(s) == [v |-> Clean(s)]
SameBoundary(pts, pieces, ring) ==
  ClosedMesh([pts |-> pts, f |-> [i \in 1..Len(pieces) |-> Ring(pieces[i])] \o (IF ring = <<>> THEN <<>> ELSE <<Ring(Rev(ring))>>)])
Used(s) == {s[i] : i \in 1..Len(s)}

Parallel(a, b) == IsZero3(Cross3(a, b))

Cut == /\ IsEvent("cut")
       /\ LET f == Ev.f IN
          /\ Require(\A i \in 1..Len(f) : /\ f[i].ok /\ ValidFacet(Ev.pts, f[i]) /\ ForwardFacet(Ev.pts, f[i])
                                          /\ Used(f[i].v) \subseteq Used(Ev.ring))
          /\ Require(SameBoundary(Ev.pts, [i \in 1..Len(f) |-> f[i].v], Ev.ring))
          /\ Require(~Ev.planar \/ \A i \in 1..Len(f) : Parallel(f[i].n, f[1].n))
       /\ n' = n + 1

---------------------------------------------------------------------------
\* cross product of p1 -> p2 -> p3 without the dropped coordinate
Turn2D(pts, d, a, b, e) == ZSgn(Cross3(Sub3(pts[a], pts[b]), Sub3(pts[a], pts[e]))[d + 1])
Convex2D(pts, d, s, sgn) ==
  LET k == Len(s) IN
  \A i \in 1..k : \A j \in 1..k : Turn2D(pts, d, s[i], s[Nx(i, k)], s[j]) * sgn >= 0
\* sign of the area: the first turn that is not flat, for a convex ring
Dir2D(pts, d, s) ==
  LET t == {Turn2D(pts, d, s[1], s[i], s[i + 1]) : i \in 2..(Len(s) - 1)}
  IN IF 1 \in t /\ -1 \notin t THEN 1 ELSE IF -1 \in t /\ 1 \notin t THEN -1 ELSE IF t \subseteq {0} THEN 0 ELSE 2

(* kind 0: triangles, 1: convex pieces, 2: convex pieces and the chains may be
   given in either order.  The ring runs along the bottom (first) chain and
   back along the top (second) one.                                         *)
Chains == /\ IsEvent("chains")
          /\ LET ring == IF Ev.kind = 2 THEN Ev.top \o Rev(Ev.bottom) ELSE Ev.bottom \o Rev(Ev.top)
                 out == Ev.out
             IN /\ Require(SameBoundary(Ev.pts, out, ring))
                /\ Require(\A i \in 1..Len(out) : LET s == out[i]
                                                      d == Dir2D(Ev.pts, Ev.drop, s) IN
                     /\ Used(s) \subseteq Used(ring)
                     /\ IF Ev.kind = 0 THEN Len(s) = 3
                        ELSE IF Ev.dir[i] = 0 THEN SameBoundary(Ev.pts, <<s>>, <<>>)   \* no area
                        ELSE Ev.dir[i] = -d /\ Convex2D(Ev.pts, Ev.drop, s, d))
                \* chains in order give pieces that do not overlap
                /\ Require(~Ev.ordered \/ LET D == {IF Ev.kind = 0 THEN Dir2D(Ev.pts, Ev.drop, out[i]) ELSE Ev.dir[i] : i \in 1..Len(out)}
                                          IN Cardinality(D \ {0}) <= 1)
          /\ n' = n + 1

Next == Cut \/ Chains \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
===============================================================================
