--------------------------------- MODULE Geom ---------------------------------
(* Exact geometry of facets with rational vertices.

   A point is <<x, y, z, w>>, meaning (x/w, y/w, z/w), with w > 0 and no common
   factor, so equal points are equal tuples.  A mesh is a record
     pts : sequence of points,
     f   : sequence of facets [n |-> <<nx, ny, nz, d>>, v |-> indices into pts]
   where the facet's plane is nx*x + ny*y + nz*z = d, its normal points out of
   the solid and its vertices are counter clockwise seen from outside.        *)
EXTENDS Z, FiniteSets, TLC

Nx(i, n) == IF i = n THEN 1 ELSE i + 1

Dot3(n, p) == ((n[1] ** p[1]) ++ (n[2] ** p[2])) ++ (n[3] ** p[3])

(* side of point p relative to plane pl: n.p - d, sign *)
Side(pl, p) == ZSgn(Dot3(pl, p) -- (pl[4] ** p[4]))

(* (b - a) times a positive number *)
Sub3(a, b) == << (b[1] ** a[4]) -- (a[1] ** b[4]),
                 (b[2] ** a[4]) -- (a[2] ** b[4]),
                 (b[3] ** a[4]) -- (a[3] ** b[4]) >>
Cross3(a, b) == << (a[2] ** b[3]) -- (a[3] ** b[2]),
                   (a[3] ** b[1]) -- (a[1] ** b[3]),
                   (a[1] ** b[2]) -- (a[2] ** b[1]) >>
IsZero3(a) == ZSgn(a[1]) = 0 /\ ZSgn(a[2]) = 0 /\ ZSgn(a[3]) = 0

(* Sign of the turn a -> b -> c seen from the side n points to. *)
Turn(n, a, b, c) == ZSgn(Dot3(n, Cross3(Sub3(a, b), Sub3(a, c))))

---------------------------------------------------------------------------
(* A facet is valid when it is a planar strictly simple convex polygon with a
   nonzero area whose vertices turn counter clockwise around its normal.
   Vertices in the middle of a side are allowed.                             *)
ValidFacet(pts, f) ==
  LET k == Len(f.v) IN
  /\ k >= 3
  /\ \A i \in 1..k : Side(f.n, pts[f.v[i]]) = 0
  /\ Cardinality({f.v[i] : i \in 1..k}) = k
  /\ \A i \in 1..k : \A j \in 1..k :
       (j # i /\ j # Nx(i, k)) =>
          Turn(f.n, pts[f.v[i]], pts[f.v[Nx(i, k)]], pts[f.v[j]]) >= 0
  /\ \E j \in 3..k : Turn(f.n, pts[f.v[1]], pts[f.v[2]], pts[f.v[j]]) > 0
  /\ ~IsZero3(f.n)

(* With vertices in the middle of a side the pairwise test alone would accept
   an order that backtracks along a side, so collinear runs must go forward. *)
ForwardFacet(pts, f) ==
  LET k == Len(f.v) IN
  \A i \in 1..k :
    LET a == pts[f.v[i]]
        b == pts[f.v[Nx(i, k)]]
        d == pts[f.v[Nx(Nx(i, k), k)]]
        u == Sub3(a, b)
        w == Sub3(b, d)
    IN IsZero3(Cross3(u, w)) => ZSgn(((u[1] ** w[1]) ++ (u[2] ** w[2])) ++ (u[3] ** w[3])) > 0

ValidMesh(m) == \A i \in 1..Len(m.f) : ValidFacet(m.pts, m.f[i]) /\ ForwardFacet(m.pts, m.f[i])

---------------------------------------------------------------------------
(* Winding number of a closed mesh around the point q moved by the
   infinitesimal vector (-e^3, -e^2, -e).  The move makes q generic: it is on
   no facet, on no facet's plane, and the ray from it along +x meets no edge.
   For a q off the surface the winding number is that of q itself.           *)
WindingOf(T, n, v, qside) ==
  \* T: vertices relative to q as <<y, z, w>>; ray along +x
  LET k == Len(v)
      Cr(i) ==
        LET a == T[v[i]]
            b == T[v[Nx(i, k)]]
            upa == ZSgn(a[2]) >= 0
            upb == ZSgn(b[2]) >= 0
        IN IF upa = upb THEN 0
           ELSE LET s1 == ZSgn((a[1] ** b[2]) -- (b[1] ** a[2]))
                    s2 == IF s1 # 0 THEN s1 ELSE ZSgn((a[1] ** b[3]) -- (b[1] ** a[3]))
                    s == IF s2 # 0 THEN s2 ELSE IF upb THEN 1 ELSE -1
                IN IF upb THEN (IF s > 0 THEN 1 ELSE 0)
                          ELSE (IF s < 0 THEN -1 ELSE 0)
      w2 == ZSumSeq([i \in 1..k |-> Cr(i)])
  IN IF w2 = 0 THEN 0
     ELSE \* is the plane met at a larger x than q?  (d - n.q) / nx > 0
       LET s0 == -qside
           s1 == IF s0 # 0 THEN s0 ELSE ZSgn(n[3])
           s2 == IF s1 # 0 THEN s1 ELSE ZSgn(n[2])
           s == IF s2 # 0 THEN s2 ELSE ZSgn(n[1])
       IN IF s * ZSgn(n[1]) > 0 THEN w2 ELSE 0

Winding(m, q) ==
  LET T == TLCEval([i \in 1..Len(m.pts) |->
                      LET p == m.pts[i] IN
                      << (p[2] ** q[4]) -- (q[2] ** p[4]), (p[3] ** q[4]) -- (q[3] ** p[4]), p[4] >>])
  IN ZSumSeq([i \in 1..Len(m.f) |->
               LET f == m.f[i] IN
               IF ZSgn(f.n[1]) = 0 THEN 0 ELSE WindingOf(T, f.n, f.v, Side(f.n, q))])

---------------------------------------------------------------------------
(* Boundary.  The facets' directed sides form a 1-chain.  On one line a side
   from a to b covers [a, b] once in its direction, and the chain is zero iff
   on every line through every point the number of sides starting there equals
   the number ending there.                                                  *)
ClosedMod(m, parity) ==   \* parity: coefficients modulo 2, facets have no orientation
  LET E == TLCEval(UNION {{<<i, j, m.f[i].v[j], m.f[i].v[Nx(j, Len(m.f[i].v))]>> : j \in 1..Len(m.f[i].v)} : i \in 1..Len(m.f)})
      used == TLCEval({e[3] : e \in E})
      VertexOk(p) ==
        LET out == TLCEval({e \in E : e[3] = p})
            in == TLCEval({e \in E : e[4] = p})
            nb == TLCEval({e[4] : e \in out} \cup {e[3] : e \in in})
            \* sides to / from u, counted
            net == TLCEval([u \in nb |-> Cardinality({e \in out : e[4] = u}) - Cardinality({e \in in : e[3] = u})])
            open == TLCEval({u \in nb : net[u] # 0})
            OnLine(u) == {x \in open : IsZero3(Cross3(Sub3(m.pts[p], m.pts[u]), Sub3(m.pts[p], m.pts[x])))}
        IN \A u \in open : LET t == ZSumSet(net, OnLine(u)) IN IF parity THEN t % 2 = 0 ELSE t = 0
  IN \A p \in used : VertexOk(p)
ClosedMesh(m) == ClosedMod(m, FALSE)

---------------------------------------------------------------------------
(* Six times the enclosed volume times L^3, L a common multiple of the w's. *)
Scaled(m, mult) == TLCEval([i \in 1..Len(m.pts) |->
   << m.pts[i][1] ** mult[i], m.pts[i][2] ** mult[i], m.pts[i][3] ** mult[i] >>])
Volume6(m, mult) ==
  LET S == Scaled(m, mult)
      Fan(v) == ZSumSeq([i \in 1..(Len(v) - 2) |-> Dot3(S[v[1]], Cross3(S[v[i + 1]], S[v[i + 2]]))])
  IN ZSumSeq([i \in 1..Len(m.f) |-> Fan(m.f[i].v)])
===============================================================================
