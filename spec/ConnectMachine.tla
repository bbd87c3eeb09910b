---------------------------- MODULE ConnectMachine ----------------------------
(* The surface a connecting traversal returns: the boolean machine's surface,
   with every side linked to the side of the neighbouring facet.             *)
EXTENDS BooleanMachine

Lk(e) == Ev.pt[e[1]][e[2]]
Edges(m) == UNION {{<<i, j>> : j \in 1..Len(m.f[i].v)} : i \in 1..Len(m.f)}
From(m, e) == m.f[e[1]].v[e[2]]
To(m, e) == m.f[e[1]].v[Nx(e[2], Len(m.f[e[1]].v))]
NormalOf(m, e) == m.f[e[1]].n
DirOf(m, e) == Sub3(m.pts[From(m, e)], m.pts[To(m, e)])
Into(m, e) == Cross3(NormalOf(m, e), DirOf(m, e))      \* towards the facet
Dot(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])

(* A link is mutual and joins the two directions of one segment. *)
LinkOk(m, e) ==
  LET k == Lk(e) IN
  /\ k[1] \in 1..Len(m.f)
  /\ k[2] \in 1..Len(m.f[k[1]].v)
  /\ k # e
  /\ Lk(k) = e
  /\ From(m, k) = To(m, e) /\ To(m, k) = From(m, e)

(* Do the sides overlap in more than a point (they are on one line)? *)
Before(d, a, b) == ZSgn(Dot(d, Sub3(a, b))) > 0
Overlap(m, e, k) ==
  LET d == DirOf(m, e)
      a == m.pts[From(m, e)]
      b == m.pts[To(m, e)]
      x == m.pts[From(m, k)]
      y == m.pts[To(m, k)]
      lo == IF Before(d, x, y) THEN x ELSE y
      hi == IF Before(d, x, y) THEN y ELSE x
  IN Before(d, a, hi) /\ Before(d, lo, b)

(* Coordinates of the direction towards facet k, seen along side e: the first
   axis points into facet e, the second into the solid behind it.  Angles run
   over (0, 2 pi].                                                           *)
Coord(m, e, k) == LET u == Into(m, k) IN << Dot(u, Into(m, e)), ZNeg(Dot(u, NormalOf(m, e))) >>
Half(p) == IF ZSgn(p[2]) > 0 \/ (ZSgn(p[2]) = 0 /\ ZSgn(p[1]) < 0) THEN 0 ELSE 1
AngleLess(p, q) == \/ Half(p) < Half(q)
                   \/ Half(p) = Half(q) /\ ZSgn((p[1] ** q[2]) -- (q[1] ** p[2])) > 0

(* The solid between two linked facets contains no other facet. *)
WedgeFree(m, E, e) ==
  LET k == Lk(e)
      line == Ev.ln[e[1]][e[2]]
      ck == TLCEval(Coord(m, e, k))
  IN \A x \in {y \in E : Ev.ln[y[1]][y[2]] = line} \ {e, k} :
       Overlap(m, e, x) => ~AngleLess(Coord(m, e, x), ck)

Linked(m) ==
  LET E == TLCEval(Edges(m)) IN
  /\ \A e \in E : LinkOk(m, e)
  /\ \A e \in E : WedgeFree(m, E, e)

CTraverse ==
  /\ Traverse
  /\ Require(Linked([pts |-> Ev.pts, f |-> Ev.f]))

(* Inputs with missing facets: facets stay valid, links stay mutual, and the
   error log is only empty when the surface is closed and fully linked.      *)
Open ==
  /\ IsEvent("open")
  /\ LET m == [pts |-> Ev.pts, f |-> Ev.f] IN
     /\ Require(ValidMesh(m))
     /\ Require(\A e \in Edges(m) : Lk(e) = <<0, 0>> \/ LinkOk(m, e))
     /\ Require(Ev.errors = 0 => ClosedMesh(m) /\ \A e \in Edges(m) : Lk(e) # <<0, 0>>)
  /\ UNCHANGED <<mesh, vol>>

CNext == \/ NewTree \/ Add \/ CTraverse \/ Open
         \/ (AtEnd /\ UNCHANGED <<mesh, vol>>)
CSpec == Init /\ [][CNext]_vars
===============================================================================
