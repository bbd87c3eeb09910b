------------------------------- MODULE EventLists ------------------------------
(* Sorted lists of the places along an axis where facets begin and end, and what
   splitting across the axis does to them.  A facet is a record: id, lo and hi
   (for each axis a rational <<p, q>>, q > 0).  An event is <<start, new, k>>: k is
   the place of its end (start) or the facet (end).  Places count from 1.         *)
EXTENDS Z, FiniteSets

CmpR(a, b) == ZSgn(ZSub(ZMul(a[1], b[2]), ZMul(b[1], a[2])))
Lo(F, i, d) == F[i].lo[d]
Hi(F, i, d) == F[i].hi[d]
Flat(F, i, d) == CmpR(Lo(F, i, d), Hi(F, i, d)) = 0

\* the facet of event i, and where the event is
OfEvent(ev, i) == IF ev[i][1] THEN ev[ev[i][3]][3] ELSE ev[i][3]
Loc(F, d, ev, i) == IF ev[i][1] THEN Lo(F, OfEvent(ev, i), d) ELSE Hi(F, OfEvent(ev, i), d)

\* a list for the facets F along axis d
Paired(F, ev) ==
  /\ Len(ev) = 2 * Len(F)
  /\ \A i \in 1..Len(ev) :
       IF ev[i][1] THEN /\ ev[i][3] \in (i + 1)..Len(ev)
                        /\ ~ev[ev[i][3]][1]
                   ELSE ev[i][3] \in 1..Len(F)
  /\ \A f \in 1..Len(F) : \E i \in 1..Len(ev) : ~ev[i][1] /\ ev[i][3] = f /\ \E j \in 1..Len(ev) : ev[j][1] /\ ev[j][3] = i
Sorted(F, d, ev) ==
  /\ ev = << >> \/ ev[1][2]
  /\ \A i \in 2..Len(ev) : \E s \in { CmpR(Loc(F, d, ev, i - 1), Loc(F, d, ev, i)) } : s <= 0 /\ ev[i][2] = (s < 0)
ListOf(F, d, ev) == Paired(F, ev) /\ Sorted(F, d, ev)

\* a list made from scratch: where several events meet, facets end before others begin
EndsFirst(F, d, ev) ==
  \A i \in 1..Len(ev) : \A j \in (i + 1)..Len(ev) :
     (\A k \in (i + 1)..j : ~ev[k][2]) /\ ev[i][1] /\ ~Flat(F, OfEvent(ev, i), d) => ev[j][1] \/ Flat(F, OfEvent(ev, j), d)

\* ---- where to split: after an event which is the last of some ends in a row
Candidates(ev) == { i \in 1..Len(ev) : ~ev[i][1] /\ (i = Len(ev) \/ ev[i + 1][1]) }
Count(S) == Cardinality(S)
Begun(ev, i) == { j \in 1..i : ev[j][1] }
Ended(ev, i) == { j \in 1..i : ~ev[j][1] }
Counted(F, ev, S, ex) == Count({ j \in S : F[OfEvent(ev, j)].id # ex })
\* est is a table of estimates: est[m + 1][n] for m facets weighed by log n
CostAt(F, ev, i, ex, excount, est) ==
  LET neg == Count(Begun(ev, i))
      pos == Len(F) - Count(Ended(ev, i))
      nlog == Counted(F, ev, Begun(ev, i), ex) + 1
      plog == (Len(F) - excount) - Counted(F, ev, Ended(ev, i), ex) + 1
  IN est[neg + 1][nlog] + est[pos + 1][plog]
Cheapest(F, ev, i, cost, ex, excount, est) ==
  /\ i \in Candidates(ev)
  /\ CostAt(F, ev, i, ex, excount, est) = cost
  /\ \A j \in Candidates(ev) : CostAt(F, ev, j, ex, excount, est) >= cost

\* ---- a split at x across axis d
Neg(F, d, x) == { f \in 1..Len(F) : CmpR(Lo(F, f, d), x) < 0 }
Pos(F, d, x) == { f \in 1..Len(F) : CmpR(Hi(F, f, d), x) > 0 }
On(F, d, x) == { f \in 1..Len(F) : CmpR(Lo(F, f, d), x) = 0 /\ CmpR(Hi(F, f, d), x) = 0 }
SameR(a, b) == CmpR(a, b) = 0
\* g is facet f, or the part of f on one side (neg: below x)
PartOf(f, g, d, x, neg) ==
  /\ f.id = g.id
  /\ \A a \in 1..3 :
       IF a = d THEN /\ SameR(g.lo[d], IF ~neg /\ CmpR(f.lo[d], x) < 0 THEN x ELSE f.lo[d])
                     /\ SameR(g.hi[d], IF neg /\ CmpR(f.hi[d], x) > 0 THEN x ELSE f.hi[d])
       ELSE IF CmpR(f.lo[d], x) < 0 /\ CmpR(f.hi[d], x) > 0      \* cut
            THEN CmpR(f.lo[a], g.lo[a]) <= 0 /\ CmpR(g.hi[a], f.hi[a]) <= 0
            ELSE SameR(f.lo[a], g.lo[a]) /\ SameR(f.hi[a], g.hi[a])
=================================================================================
