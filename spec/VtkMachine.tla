-------------------------------- MODULE VtkMachine --------------------------------
(* The interface to VTK.  Inputs are cells over a list of points: polygons, and
   strips, whose i-th triangle is made of three points in a row, every second one
   turning the other way.  They are rounded to a power of two when asked to, turned
   into polygons, combined by the filter, and written back.                        *)
EXTENDS BooleanMachine

\* q is p rounded to a multiple of 2^-e: no further than half of it in any direction
\* points are in lowest terms, so the last number is the common denominator
Multiple(q, e) == \E k \in 0..e : ZEq(q[4], ZPow2(k))
Near(p, q, e) == \A a \in 1..3 :
  \E x \in { (p[a] ** q[4]) -- (q[a] ** p[4]) } :
    ZSgn(((IF ZSgn(x) < 0 THEN 0 -- x ELSE x) ** ZPow2(e + 1)) -- (p[4] ** q[4])) <= 0
Rounded(p, q, e) == Multiple(q, e) /\ Near(p, q, e)

\* ---- what the cells mean
PlaneThrough(a, b, d) ==
  CHOOSE r \in { << n[1] ** a[4], n[2] ** a[4], n[3] ** a[4], Dot3(n, a) >> : n \in { Cross3(Sub3(a, b), Sub3(a, d)) } } : TRUE
Corner(pts, v) ==
  { k \in 3..Len(v) : \E j \in 2..(k - 1) : ~IsZero3(Cross3(Sub3(pts[v[1]], pts[v[j]]), Sub3(pts[v[1]], pts[v[k]]))) }
Flat(pts, v) == Corner(pts, v) = {}
WithPlane(pts, v) ==
  LET k == CHOOSE k \in Corner(pts, v) : \A x \in Corner(pts, v) : k <= x
      j == CHOOSE j \in 2..(k - 1) : ~IsZero3(Cross3(Sub3(pts[v[1]], pts[v[j]]), Sub3(pts[v[1]], pts[v[k]])))
  IN [n |-> PlaneThrough(pts[v[1]], pts[v[j]], pts[v[k]]), v |-> v]
StripTriangle(s, i) == IF i % 2 = 1 THEN << s[i], s[i + 1], s[i + 2] >> ELSE << s[i + 1], s[i], s[i + 2] >>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))
Cells(polys, strips) ==
  polys \o Flatten([k \in 1..Len(strips) |-> [i \in 1..(Len(strips[k]) - 2) |-> StripTriangle(strips[k], i)]])
Surface(pts, polys, strips) ==
  LET full == SelectSeq(Cells(polys, strips), LAMBDA v : ~Flat(pts, v))
  IN TLCEval([pts |-> pts, f |-> TLCEval([i \in 1..Len(full) |-> WithPlane(pts, full[i])])])
Backwards(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]

Input ==
  /\ IsEvent("input")
  /\ Require(Len(Ev.raw) = Len(Ev.q))
  /\ Require(\A i \in 1..Len(Ev.raw) : IF Ev.exact THEN \A a \in 1..4 : ZEq(Ev.q[i][a], Ev.raw[i][a]) ELSE Rounded(Ev.raw[i], Ev.q[i], Ev.e))
  /\ mesh' = (Ev.id :> << Surface(Ev.q, Ev.polys, Ev.strips) >>) @@ mesh
  /\ UNCHANGED vol

\* ---- the polygons made of an input; when flipped, turned inside out
SameSurface(out, id, qs, sign) ==
  /\ Require(ValidMesh(out))
  /\ Require(ClosedMesh(out))
  /\ Require(\A i \in 1..Len(qs) : Winding(out, qs[i]) = sign * SumWinding(mesh[id], qs[i]))
Import ==
  /\ IsEvent("import")
  /\ SameSurface([pts |-> Ev.pts, f |-> Ev.f], Ev.id, Ev.qs, IF Ev.flip THEN -1 ELSE 1)
  /\ UNCHANGED <<mesh, vol>>

\* ---- polygons written to VTK and read again
Export ==
  /\ IsEvent("export")
  /\ Require(Ev.out = Ev.f)               \* the same points in the same order
  /\ Require(Ev.used = Len(Ev.pts))       \* one VTK point for every point
  /\ UNCHANGED <<mesh, vol>>

\* ---- the filter
Combined(op, ids, w) ==
  CASE op = "union" -> \E i \in 1..Len(ids) : W(w, ids[i]) > 0
    [] op = "intersection" -> \A i \in 1..Len(ids) : W(w, ids[i]) > 0
    [] op = "difference" -> W(w, ids[1]) > 0 /\ \A i \in 2..Len(ids) : W(w, ids[i]) <= 0
Filter ==
  /\ IsEvent("filter")
  /\ Require(Ev.ok)
  /\ LET out == [pts |-> Ev.pts, f |-> Ev.f] IN
     /\ Require(Ev.planar => ValidMesh(out) /\ ClosedMesh(out))
     /\ Require(Ev.distinct)
     /\ Require(\A i \in 1..Len(Ev.qs) : Winding(out, Ev.qs[i]) = IF Combined(Ev.kind, Ev.ids, Pwn(Ev.qs[i])) THEN 1 ELSE 0)
  /\ UNCHANGED <<mesh, vol>>

VtkNext == NewTree \/ Input \/ Import \/ Export \/ Filter \/ (AtEnd /\ UNCHANGED <<mesh, vol>>)
VtkSpec == Init /\ [][VtkNext]_vars
===================================================================================
