------------------------------ MODULE TreeMachine ------------------------------
(* One BSP tree.  The state is what was put into it: the facets added for every
   id, and the plane every interior node is split by.  Neither the order of the
   steps nor the way a split was chosen is part of the state, so a dump of the
   tree is decided by these two alone: the pieces in the leaves are exactly the
   added facets cut along the planes.                                          *)
EXTENDS Geom, Conformance

VARIABLES run,      \* [closed, nid]
          pts,      \* points named so far
          added,    \* facets added, each [id, n, v]
          split     \* path of an interior node -> its plane
vars == <<c, l, run, pts, added, split>>

Init == TraceStart /\ run = <<>> /\ pts = <<>> /\ added = <<>> /\ split = <<>>

Begin == /\ IsEvent("begin")
         /\ run' = [closed |-> Ev.closed, nid |-> Ev.nid]
         /\ pts' = <<>> /\ added' = <<>> /\ split' = <<>>

Add == /\ IsEvent("add")
       /\ LET P == pts \o Ev.pts IN
          /\ Require(\A i \in 1..Len(Ev.f) : ValidFacet(P, Ev.f[i]) /\ ForwardFacet(P, Ev.f[i]))
          /\ pts' = P
          /\ added' = added \o [i \in 1..Len(Ev.f) |-> [id |-> Ev.id, n |-> Ev.f[i].n, v |-> Ev.f[i].v]]
       /\ UNCHANGED <<run, split>>

IsLeafPath(p) == p \notin DOMAIN split /\ (p = <<>> \/ SubSeq(p, 1, Len(p) - 1) \in DOMAIN split)
\* the plane at depth d of the way to p, and the side taken there
Anc(p, d) == split[SubSeq(p, 1, d - 1)]
SamePlane(a, b) == IsZero3(Cross3(a, b)) /\ \A i \in 1..3 : ZEq(a[i] ** b[4], b[i] ** a[4])

Split == /\ IsEvent("split")
         /\ Require(/\ IsLeafPath(Ev.path)
                    /\ ~IsZero3(Ev.h)
                    /\ \A d \in 1..Len(Ev.path) : ~SamePlane(Anc(Ev.path, d), Ev.h))
         /\ split' = (Ev.path :> Ev.h) @@ split
         /\ UNCHANGED <<run, pts, added>>

---------------------------------------------------------------------------
EqPlane(a, b) == \A i \in 1..4 : ZEq(a[i], b[i])
Within(P, g, p) == \A i \in 1..Len(g.v) : Turn(g.n, P[g.v[i]], P[g.v[Nx(i, Len(g.v))]], p) >= 0
\* the side a--b lies on the boundary of g (both points are in g)
OnRim(P, g, a, b) == \E i \in 1..Len(g.v) :
   LET u == P[g.v[i]]
       w == P[g.v[Nx(i, Len(g.v))]]
   IN Turn(g.n, u, w, a) = 0 /\ Turn(g.n, u, w, b) = 0

\* 2 * area * L^2 in the projection along k
Area2(P, m, f, k) ==
  LET X(i) == P[f.v[i]][(k % 3) + 1] ** m[f.v[i]]
      Y(i) == P[f.v[i]][((k + 1) % 3) + 1] ** m[f.v[i]]
      n == Len(f.v)
  IN ZSumSeq([i \in 1..n |-> (X(i) ** Y(Nx(i, n))) -- (X(Nx(i, n)) ** Y(i))])
DropOf(n) == IF ZSgn(n[1]) # 0 THEN 1 ELSE IF ZSgn(n[2]) # 0 THEN 2 ELSE 3

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Mark(p, d) == << d, p[d] >>

(* One piece in the leaf with path p: S[d][i] is the side of plane d vertex i
   is on; border tells in which list it is.                                  *)
PieceOk(P, p, q, border) ==
  LET k == Len(q.v)
      D == Len(p)
      S == TLCEval([d \in 1..D |-> LET h == Anc(p, d) IN [i \in 1..k |-> Side(h, P[q.v[i]])]])
      Own == {d \in 1..D : \A i \in 1..k : S[d][i] = 0}
      Src == TLCEval({a \in 1..Len(added) : /\ added[a].id = q.id /\ EqPlane(added[a].n, q.n)
                                   /\ \A i \in 1..k : Within(P, added[a], P[q.v[i]])})
      EdgeOk(i) ==
        LET j == Nx(i, k)
            De == {d \in 1..D : S[d][i] = 0 /\ S[d][j] = 0}
            Dv == {d \in 1..D : S[d][i] = 0}
            e == q.e[i]
        IN /\ e[2] = (IF De = {} THEN <<0, 0>> ELSE Mark(p, Least(De)))
           /\ e[3] = (IF De = {} THEN <<0, 0>> ELSE Mark(p, Most(De)))
           /\ e[4] = (IF Dv = {} THEN <<0, 0>> ELSE Mark(p, Most(Dv)))
           /\ Cardinality(Src) = 1 =>
                LET g == added[CHOOSE a \in Src : TRUE] IN
                e[1] = (IF OnRim(P, g, P[q.v[i]], P[q.v[j]]) THEN <<0, 0>> ELSE Mark(p, Least(De \ Own)))
  IN /\ q.ok
     /\ ValidFacet(P, q) /\ ForwardFacet(P, q)
     \* in the region
     /\ \A d \in 1..D : \A i \in 1..k : IF p[d] = 1 THEN S[d][i] >= 0 ELSE S[d][i] <= 0
     \* part of what was added
     /\ Src # {}
     \* interior pieces lie on no plane of the way, border pieces on the one named
     /\ IF border
        THEN /\ Cardinality(Own) = 1
             /\ LET d == Least(Own)
                    s == ZSgn(Dot3(q.n, Anc(p, d)))
                IN q.on = Mark(p, d) /\ p[d] = (IF s < 0 THEN 1 ELSE 0)
        ELSE Own = {} /\ q.on = <<0, 0>>
     /\ \A i \in 1..k : EdgeOk(i)

LeafOk(P, n) ==
  /\ \A i \in 1..Len(n.c) : PieceOk(P, n.path, n.c[i], FALSE)
  /\ \A i \in 1..Len(n.b) : PieceOk(P, n.path, n.b[i], TRUE)
  /\ \A id \in 0..(run.nid - 1) :
       /\ n.in[id + 1] = Cardinality({i \in 1..Len(n.c) : n.c[i].id = id})
       /\ n.bo[id + 1] = Cardinality({i \in 1..Len(n.b) : n.b[i].id = id})
       \* a convex facet meets a convex region once
       /\ LET some == {i \in 1..Len(n.c) : n.c[i].id = id}
          IN \A i \in some : Cardinality({j \in some : EqPlane(n.c[i].n, n.c[j].n)})
                             <= Cardinality({a \in 1..Len(added) : added[a].id = id /\ EqPlane(added[a].n, n.c[i].n)})

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

InsideLeaf(p, q) == \A d \in 1..Len(p) : Side(Anc(p, d), q) = (IF p[d] = 1 THEN 1 ELSE -1)

Dump ==
  /\ IsEvent("dump")
  /\ LET P == TLCEval(pts \o Ev.pts)
         N == Ev.nodes
         leaves == TLCEval({i \in 1..Len(N) : N[i].leaf})
         all == TLCEval([i \in leaves |-> N[i].c \o N[i].b])
     IN /\ pts' = P
        \* the tree has the shape it was given
        /\ Require(/\ \A i \in 1..Len(N) : IF N[i].leaf THEN IsLeafPath(N[i].path) ELSE N[i].path \in DOMAIN split
                   /\ Len(N) = 2 * Cardinality(DOMAIN split) + 1
                   /\ Cardinality({N[i].path : i \in 1..Len(N)}) = Len(N))
        /\ Require(\A i \in leaves : LeafOk(P, N[i]))
        \* interior nodes keep nothing, and know which ids passed through
        /\ Require(\A i \in 1..Len(N) : N[i].leaf \/
             /\ N[i].c = <<>> /\ N[i].b = <<>>
             /\ \A id \in 0..(run.nid - 1) :
                  (N[i].in[id + 1] + N[i].bo[id + 1] > 0)
                    = (\E j \in leaves : Prefix(N[i].path, N[j].path) /\ N[j].in[id + 1] + N[j].bo[id + 1] > 0))
        \* nothing is lost and nothing is doubled
        /\ Require(IF ZSgn(Ev.L) = 0 THEN TRUE ELSE \A a \in 1..Len(added) :
             LET g == added[a]
                 k == DropOf(g.n)
                 same == {b \in 1..Len(added) : added[b].id = g.id /\ EqPlane(added[b].n, g.n)}
             IN Least(same) # a \/
                ZEq(ZSumSet([b \in same |-> Area2(P, Ev.m, added[b], k)], same),
                    ZSumSet([i \in leaves |->
                       ZSumSeq([j \in 1..Len(all[i]) |->
                          LET q == all[i][j] IN
                          IF q.id = g.id /\ EqPlane(q.n, g.n) THEN Area2(P, Ev.m, q, k) ELSE 0])], leaves)))
        \* winding numbers: the same in a tree with another history, and right
        \* where no facet of the mesh is in the leaf
        /\ Require(/\ Len(Ev.twin) = Cardinality(leaves)
                   /\ \A i \in leaves : \E t \in 1..Len(Ev.twin) :
                        Ev.twin[t] = <<N[i].path, N[i].pwn, Len(N[i].c), Len(N[i].b)>>)
        /\ Require(~run.closed \/ \A t \in 1..Len(Ev.qs) : \A i \in leaves :
             InsideLeaf(N[i].path, Ev.qs[t]) =>
               \A id \in 0..(run.nid - 1) :
                 N[i].in[id + 1] = 0 =>
                   N[i].pwn[id + 1] = Winding([pts |-> P, f |-> SelectSeq(added, LAMBDA g : g.id = id)], Ev.qs[t]))
  /\ UNCHANGED <<run, added, split>>

Next == Begin \/ Add \/ Split \/ Dump \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
===============================================================================
