------------------------------- MODULE EventModel -------------------------------
(* Facets as rectangles (two axes) with corners on a small grid, split again and
   again at places where facets end.  The lists of the node are kept and divided
   between the children, as well as the facets; checked: dividing the list gives a
   list of the child's facets, for the axis of the split and for the other, and the
   counts are those of the facets.  Every set of facets is printed; the driver
   makes facets of these extents and splits them.                                *)
EXTENDS EventLists, TLC, Sequences, Naturals

CONSTANTS N, Grid
VARIABLES F, lists, depth, first
vars == <<F, lists, depth, first>>

Iv == { <<a, b>> \in (0..Grid) \X (0..Grid) : a <= b }
Boxes == { <<x, y>> \in Iv \X Iv : x[1] < x[2] \/ y[1] < y[2] }
Less(a, b) == LET k(z) == ((z[1][1] * 10 + z[1][2]) * 10 + z[2][1]) * 10 + z[2][2] IN k(a) <= k(b)
R(n) == <<n, 1>>
Facet(b) == [id |-> 0, lo |-> << R(b[1][1]), R(b[2][1]), R(0) >>, hi |-> << R(b[1][2]), R(b[2][2]), R(1) >>]

\* the list of the facets G along axis d: ends (and flat facets) before starts
Order(G, d) ==
  LET Key(i, s) == IF s THEN <<G[i].lo[d][1], IF Flat(G, i, d) THEN 0 ELSE 2, i, 0>>
                        ELSE <<G[i].hi[d][1], IF Flat(G, i, d) THEN 0 ELSE 1, i, 1>>
      Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] < b[4])))))
      E == TLCEval({ Key(i, s) : i \in 1..Len(G), s \in BOOLEAN })
      Place(e) == Cardinality({ x \in E : Lt(x, e) }) + 1
  IN [k \in 1..(2 * Len(G)) |->
       LET e == CHOOSE x \in E : Place(x) = k
           s == e[4] = 0
       IN << s, k = 1 \/ (CHOOSE x \in E : Place(x) = k - 1)[1] < e[1], IF s THEN Place(Key(e[3], FALSE)) ELSE e[3] >>]

\* dividing a list: the events of the facets kept, in the same order, a cut facet
\* ending (beginning) at the plane
Cut(f, d, x, neg) == IF neg THEN [f EXCEPT !.hi[d] = IF CmpR(@, x) > 0 THEN x ELSE @]
                            ELSE [f EXCEPT !.lo[d] = IF CmpR(@, x) < 0 THEN x ELSE @]
Sub(G, keep) == LET s == SelectSeq([i \in 1..Len(G) |-> i], LAMBDA i : i \in keep) IN s
Child(G, d, x, neg) == LET s == Sub(G, IF neg THEN Neg(G, d, x) ELSE Pos(G, d, x)) IN TLCEval([k \in 1..Len(s) |-> Cut(G[s[k]], d, x, neg)])
Index(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v
\* events kept in their order; where a cut moves an end (start) to the plane it comes last (first)
Divide(G, d, x, neg, a, ev) ==
  LET s == Sub(G, IF neg THEN Neg(G, d, x) ELSE Pos(G, d, x))
      In(i) == OfEvent(ev, i) \in {s[k] : k \in 1..Len(s)}
      Moved(i) == a = d /\ In(i) /\ CmpR(Lo(G, OfEvent(ev, i), d), x) < 0 /\ CmpR(Hi(G, OfEvent(ev, i), d), x) > 0 /\ (ev[i][1] # neg)
      all == [i \in 1..Len(ev) |-> i]
      kept == SelectSeq(all, LAMBDA i : In(i) /\ ~Moved(i))
      moved == SelectSeq(all, LAMBDA i : In(i) /\ Moved(i))
      seq == TLCEval(IF neg THEN kept \o moved ELSE moved \o kept)
      H == Child(G, d, x, neg)
      Fa(i) == Index(s, OfEvent(ev, i))
      At(i) == IF ev[i][1] THEN H[Fa(i)].lo[a] ELSE H[Fa(i)].hi[a]
      EndOf(i) == Index(seq, ev[i][3])
  IN TLCEval([k \in 1..Len(seq) |-> << ev[seq[k]][1], k = 1 \/ CmpR(At(seq[k - 1]), At(seq[k])) < 0,
                             IF ev[seq[k]][1] THEN EndOf(seq[k]) ELSE Fa(seq[k]) >>])

Init == /\ \E s \in [1..N -> Boxes] :
             /\ \A i \in 1..(N - 1) : Less(s[i], s[i + 1])
             /\ first = s
             /\ F = [i \in 1..N |-> Facet(s[i])]
        /\ lists = [d \in {1, 2} |-> Order(F, d)]
        /\ depth = 0
Next == /\ depth < 2 /\ Len(F) > 0
        /\ \E d \in {1, 2} : \E i \in Candidates(lists[d]) : \E neg \in BOOLEAN :
             \E x \in { Loc(F, d, lists[d], i) } :
               /\ F' = Child(F, d, x, neg)
               /\ lists' = [a \in {1, 2} |-> Divide(F, d, x, neg, a, lists[a])]
               /\ depth' = depth + 1 /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

Divided == \A d \in {1, 2} : ListOf(F, d, lists[d])
\* what can be counted while walking along the list is what the facets say
CountsAgree == \A d \in {1, 2} : \A i \in Candidates(lists[d]) :
   \E x \in { Loc(F, d, lists[d], i) } :
     /\ Cardinality(Begun(lists[d], i)) =
          Cardinality(Neg(F, d, x)) + Cardinality({ j \in Begun(lists[d], i) : SameR(Loc(F, d, lists[d], j), x) })
     /\ Len(F) - Cardinality(Ended(lists[d], i)) =
          Cardinality(Pos(F, d, x)) + Cardinality({ j \in (i + 1)..Len(lists[d]) : ~lists[d][j][1] /\ SameR(Loc(F, d, lists[d], j), x) })
Emit == depth # 0 \/ PrintT("RUN " \o ToString(first))
=================================================================================
