----------------------------- MODULE LineMachine -----------------------------
(* Facet sides on a few lines of a plane, and how they are paired.

   A side e is [n |-> normal of its facet, a, b |-> end points, ln |-> line].
   Over every stretch of its line a side looks for the next facet around the
   line, across the solid behind it.  When that facet has the opposite
   direction the two are linked over exactly that stretch; otherwise the
   surface is open there, which has to be reported, and the side stays alone. *)
EXTENDS Geom, Conformance

VARIABLE n
vars == <<c, l, n>>
Init == TraceStart /\ n = 0

Dot(a, b) == ((a[1] ** b[1]) ++ (a[2] ** b[2])) ++ (a[3] ** b[3])
P(i) == Ev.pts[i]
Dir(e) == Sub3(P(e.a), P(e.b))
In == Ev.in

\* the place of every end point on its line: how many end points lie before it,
\* seen along the first side of the line
LineOf(ln) == CHOOSE i \in 1..Len(In) : In[i].ln = ln /\ \A j \in 1..(i - 1) : In[j].ln # ln
EndsOn(ln) == {In[j].a : j \in {k \in 1..Len(In) : In[k].ln = ln}} \cup {In[j].b : j \in {k \in 1..Len(In) : In[k].ln = ln}}
Places == LET lines == TLCEval({In[i].ln : i \in 1..Len(In)})
              ends == TLCEval([ln \in lines |-> EndsOn(ln)])
              dir == TLCEval([ln \in lines |-> Dir(In[LineOf(ln)])])
          IN TLCEval([ln \in lines |-> TLCEval([p \in ends[ln] |->
                Cardinality({q \in ends[ln] \ {p} : ZSgn(Dot(dir[ln], Sub3(P(q), P(p)))) > 0})])])

\* first axis into facet e, second into the solid behind it; angles in (0, 2 pi]
Coord(into, normal, u) == << Dot(u, into), ZNeg(Dot(u, normal)) >>
Half(p) == IF ZSgn(p[2]) > 0 \/ (ZSgn(p[2]) = 0 /\ ZSgn(p[1]) < 0) THEN 0 ELSE 1
AngleLess(p, q) == \/ Half(p) < Half(q)
                   \/ Half(p) = Half(q) /\ ZSgn((p[1] ** q[2]) -- (q[1] ** p[2])) > 0
Dirs == TLCEval([i \in 1..Len(In) |-> Dir(In[i])])
Intos(dir) == TLCEval([i \in 1..Len(In) |-> Cross3(In[i].n, dir[i])])
Coords(into) == TLCEval([i \in 1..Len(In) |-> TLCEval([j \in 1..Len(In) |->
                  IF In[i].ln = In[j].ln THEN TLCEval(Coord(into[i], In[i].n, into[j])) ELSE <<>>])])
Sames(dir) == TLCEval([i \in 1..Len(In) |-> TLCEval([j \in 1..Len(In) |->
                  In[i].ln = In[j].ln /\ ZSgn(Dot(dir[i], dir[j])) > 0])])

\* places on the line of side i, in the direction of the line's first side
At(t, i, p) == t.place[In[i].ln][p]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Table == LET place == TLCEval(Places)
             dir == TLCEval(Dirs)
             into == TLCEval(Intos(dir))
             from == TLCEval([i \in 1..Len(In) |-> place[In[i].ln][In[i].a]])
             to == TLCEval([i \in 1..Len(In) |-> place[In[i].ln][In[i].b]])
         IN [place |-> place,
             ends |-> TLCEval([ln \in DOMAIN place |-> TLCEval({place[ln][p] : p \in DOMAIN place[ln]})]),
             up |-> TLCEval([i \in 1..Len(In) |-> from[i] < to[i]]),
             lo |-> TLCEval([i \in 1..Len(In) |-> Min2(from[i], to[i])]),
             hi |-> TLCEval([i \in 1..Len(In) |-> Max2(from[i], to[i])]),
             mates |-> TLCEval([i \in 1..Len(In) |-> TLCEval({j \in 1..Len(In) \ {i} : In[j].ln = In[i].ln})]),
             co |-> TLCEval(Coords(into)),
             same |-> TLCEval(Sames(dir))]

\* x comes before y around i; facets at one place touch: the opposite one is nearer
Nearer(t, i, x, y) == LET p == t.co[i][x]
                          q == t.co[i][y]
                      IN \/ AngleLess(p, q)
                         \/ ~AngleLess(q, p) /\ ~t.same[i][x] /\ t.same[i][y]
\* the neighbour of side i just above place p (0: none)
Next0(t, i, p) ==
  LET A == TLCEval({j \in t.mates[i] : t.lo[j] <= p /\ p < t.hi[j]})
  IN IF A = {} THEN 0 ELSE CHOOSE j \in A : \A k \in A \ {j} : ~Nearer(t, i, k, j)
\* places where the neighbourhood of the stretch a..b of side i may change
Stops(t, i, a, b) ==
  LET x == At(t, i, a)
      y == At(t, i, b)
  IN {p \in t.ends[In[i].ln] : IF x < y THEN x <= p /\ p < y ELSE y <= p /\ p < x}
Faces(t, i, j) == j # 0 /\ ~t.same[i][j]

SameDir(u, v) == IsZero3(Cross3(u, v)) /\ ZSgn(Dot(u, v)) > 0
Twice(t, i, j) == /\ In[i].ln = In[j].ln /\ t.same[i][j]
                  /\ t.lo[i] < t.hi[j] /\ t.lo[j] < t.hi[i]
                  /\ SameDir(In[i].n, In[j].n)

\* the stretches of every side, in order, cover it
Tiles(t, i) ==
  LET K == TLCEval({k \in 1..Len(Ev.out) : Ev.out[k].e = i})
      up == t.up[i]
  IN
  /\ \E k \in K : Ev.out[k].a = In[i].a
  /\ \E k \in K : Ev.out[k].b = In[i].b
  /\ \A k \in K : LET o == Ev.out[k] IN
       /\ o.a \in DOMAIN t.place[In[i].ln] /\ o.b \in DOMAIN t.place[In[i].ln]
       /\ (At(t, i, o.a) < At(t, i, o.b)) = up
       /\ IF k + 1 \in K THEN Ev.out[k + 1].a = o.b ELSE o.b = In[i].b

Mutual(k) == LET s == Ev.out[k] IN
  s.k = 0 \/ (/\ s.k \in 1..Len(Ev.out) /\ s.k # k
              /\ LET o == Ev.out[s.k] IN o.k = k /\ o.a = s.b /\ o.b = s.a)

Line ==
  /\ IsEvent("line")
  /\ \E t \in {Table} :
     LET out == Ev.out
     IN /\ Require(Ev.ok)
        /\ Require(\A i \in 1..Len(In) : Tiles(t, i))
        /\ Require(\A k \in 1..Len(out) : Mutual(k))
        /\ IF \E i \in 1..Len(In) : \E j \in (i + 1)..Len(In) : Twice(t, i, j) THEN Require(Ev.errors > 0)
           ELSE LET nb == TLCEval([k \in 1..Len(out) |->
                             LET s == out[k] IN TLCEval({Next0(t, s.e, p) : p \in Stops(t, s.e, s.a, s.b)})])
                IN /\ Require(\A k \in 1..Len(out) :
                        LET s == out[k] IN
                        IF s.k = 0 THEN \A j \in nb[k] : ~Faces(t, s.e, j)
                        ELSE nb[k] = {out[s.k].e} /\ Faces(t, s.e, out[s.k].e))
                   /\ Require((Ev.errors > 0) = (\E k \in 1..Len(out) : \E j \in nb[k] : ~Faces(t, out[k].e, j)))
  /\ n' = n + 1

Next == Line \/ (AtEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
===============================================================================
