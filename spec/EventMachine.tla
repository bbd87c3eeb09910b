------------------------------ MODULE EventMachine ------------------------------
(* Recorded axis splits of nodes: lists from scratch, the best places to split, and
   the lists of both children.                                                     *)
EXTENDS EventLists, Conformance

VARIABLE done
vars == <<c, l, done>>
Init == TraceStart /\ done = 0

Make ==
  /\ IsEvent("make") /\ UNCHANGED done
  /\ Require(\A d \in 1..3 : ListOf(Ev.F, d, Ev.ev[d]))
  /\ Require(\A d \in 1..3 : EndsFirst(Ev.F, d, Ev.ev[d]))

\* the node's lists, and the best place along every axis
Best ==
  /\ IsEvent("best") /\ UNCHANGED done
  /\ Require(\A d \in 1..3 : ListOf(Ev.F, d, Ev.ev[d]))
  /\ Require(\A d \in 1..3 : Cheapest(Ev.F, Ev.ev[d], Ev.at[d], Ev.cost[d], Ev.ex, Ev.excount, Ev.est))

\* the split: counts, range of the events on the plane, the plane, and the children
Children(F, d, x, ch, kept, neg) ==
  /\ Len(ch.F) = Cardinality(kept)
  \* every facet of the child is the part of the facet mapped to it, and only of that
  /\ \A f \in kept : Ev.map[f][IF neg THEN 1 ELSE 2] \in 1..Len(ch.F) /\ PartOf(F[f], ch.F[Ev.map[f][IF neg THEN 1 ELSE 2]], d, x, neg)
  /\ Cardinality({ Ev.map[f][IF neg THEN 1 ELSE 2] : f \in kept }) = Cardinality(kept)
  /\ \A f \in (1..Len(F)) \ kept : Ev.map[f][IF neg THEN 1 ELSE 2] = 0
  /\ \A a \in 1..3 : ListOf(ch.F, a, ch.ev[a])
Split ==
  /\ IsEvent("split") /\ UNCHANGED done
  /\ LET F == Ev.F
         d == Ev.d
         ev == Ev.ev
     IN \E x \in { Loc(F, d, ev, Ev.at) } :
        \E n \in { Neg(F, d, x) } : \E p \in { Pos(F, d, x) } : \E o \in { On(F, d, x) } :
          /\ Require(Ev.counts = << Cardinality(n), Cardinality(p), Cardinality(o) >>)
          /\ Require(Ev.extra = Cardinality(n) + Cardinality(p) + Cardinality(o) - Len(F))
          /\ Require(\A i \in 1..Len(ev) : (i \in Ev.begin..Ev.end) = SameR(Loc(F, d, ev, i), x))
          /\ Require(/\ ZSgn(Ev.plane[d]) > 0
                     /\ \A a \in 1..3 : a = d \/ ZSgn(Ev.plane[a]) = 0
                     /\ SameR(<<Ev.plane[4], Ev.plane[d]>>, x))
          /\ Require(Children(F, d, x, Ev.neg, n, TRUE))
          /\ Require(Children(F, d, x, Ev.pos, p, FALSE))
          /\ Require(Ev.onplane = Cardinality(o))
          /\ Require(Ev.clean)

Next == Make \/ Best \/ Split \/ (AtEnd /\ UNCHANGED done)
Spec == Init /\ [][Next]_vars
=================================================================================
