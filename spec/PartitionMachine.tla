---------------------------- MODULE PartitionMachine ----------------------------
(* Partition of coplanar facets, as the visitor of the walk sees it.

   The walk enters a binary tree of cells.  Every cell is announced by a
   question, then either split by a line (Enter, two children, Leave) or it is a
   leaf, whose facets are peeled off one after another with a question each.
   With a visitor that wants every facet the state records, for every open
   split, how many children were begun and which side the first one is on, and
   what the question claimed to be in the cell.                               *)
EXTENDS Geom, Conformance, Filters

VARIABLES inp,      \* the run: pts, facets, pwn, ...; empty outside a run
          stack,    \* open splits, outermost first
          leaf,     \* in a leaf: [claim, pieces]; else empty
          pwn,      \* winding numbers as the facets of the leaf are peeled off
          asked,    \* the last question, until it is used
          area      \* twice the area found so far, per facet (scaled)
vars == <<c, l, inp, stack, leaf, pwn, asked, area>>

Init == TraceStart /\ inp = <<>> /\ stack = <<>> /\ leaf = <<>> /\ pwn = <<>> /\ asked = <<>> /\ area = <<>>

Drop(p, d) == << p[((d + 1) % 3) + 1], p[((d + 2) % 3) + 1] >>
\* twice the signed area in the projection, times L^2
Area(e, f) ==
  LET n == Len(f.v)
      P(i) == LET q == Drop(e.pts[f.v[i]], e.drop)
                  m == e.m[f.v[i]]
              IN << q[1] ** m, q[2] ** m >>
  IN ZSumSeq([i \in 1..n |-> LET a == P(i)
                                 b == P(Nx(i, n))
                             IN (a[1] ** b[2]) -- (a[2] ** b[1])])

Within(e, f, p) == \A i \in 1..Len(f.v) : Turn(f.n, e.pts[f.v[i]], e.pts[f.v[Nx(i, Len(f.v))]], p) >= 0
Inside(e, f, p) == \A i \in 1..Len(f.v) : Turn(f.n, e.pts[f.v[i]], e.pts[f.v[Nx(i, Len(f.v))]], p) > 0
SameNormal(f, g) == ZSgn(Dot3(f.n, g.n)) > 0
Good(e, f) == f.ok /\ ValidFacet(e.pts, f) /\ ForwardFacet(e.pts, f)
\* the two facets are the same set of points
SameSet(e, f, g) == (\A i \in 1..Len(f.v) : Within(e, g, e.pts[f.v[i]]))
                    /\ (\A i \in 1..Len(g.v) : Within(e, f, e.pts[g.v[i]]))
\* every side lies on the split it names, and on a second one
SidesOk(e, f) ==
  \A i \in 1..Len(f.v) :
    LET s == f.sp[i]
        a == e.pts[f.v[i]]
        b == e.pts[f.v[Nx(i, Len(f.v))]]
    IN /\ s[1] # <<>> /\ s[2] # <<>> /\ s[4]
       /\ Side(s[1], a) = 0 /\ Side(s[1], b) = 0 /\ Side(s[2], a) = 0 /\ Side(s[2], b) = 0
       /\ s[3] # <<>> /\ Side(s[3], a) = 0
\* side of a split a facet is on: -1, 1, or 0 if it is on both or neither
SideOf(e, h, f) == LET s == {Side(h, e.pts[f.v[i]]) : i \in 1..Len(f.v)}
                   IN IF 1 \in s /\ -1 \in s THEN 0 ELSE IF 1 \in s THEN 1 ELSE IF -1 \in s THEN -1 ELSE 0
\* facets are stickers on the inside of the cell
Change(e, f) == IF (ZSgn(f.n[e.drop + 1]) > 0) = e.pos THEN 1 ELSE -1

Ids(b) == {i \in 0..(Len(b) - 1) : b[i + 1]}

Run == /\ IsEvent("run")
       /\ inp = <<>>
       /\ inp' = Ev
       /\ stack' = <<>> /\ leaf' = <<>> /\ asked' = <<>> /\ pwn' = Ev.pwn
       /\ area' = [i \in 0..(Len(Ev.f) - 1) |-> 0]

Ask == /\ IsEvent("ask")
       /\ asked = <<>>
       /\ asked' = Ev
       /\ UNCHANGED <<inp, stack, leaf, pwn, area>>

LeafDone == leaf = <<>> \/ leaf[1].claim = {p.id : p \in leaf[1].pieces}
\* a child of the innermost split begins: what it claims
Begin(s, claim) ==
  IF s = <<>> THEN s
  ELSE LET t == s[Len(s)] IN [s EXCEPT ![Len(s)] = [t EXCEPT !.kids = @ + 1, !.seen = @ \cup claim]]
MayBegin(claim) ==
  /\ asked # <<>>
  /\ asked.pwn = inp.pwn
  /\ LeafDone
  /\ IF stack = <<>> THEN leaf = <<>> /\ claim = 0..(Len(inp.f) - 1)
     ELSE stack[Len(stack)].kids < 2 /\ claim \subseteq stack[Len(stack)].claim

Enter ==
  /\ IsEvent("enter")
  /\ inp # <<>>
  /\ Ev.part
  /\ Require(LET claim == Ids(asked.has) IN MayBegin(claim))
  /\ stack' = Append(Begin(stack, Ids(asked.has)),
                     [h |-> Ev.h, kids |-> 0, side |-> 0, claim |-> Ids(asked.has), seen |-> {}])
  /\ leaf' = <<>> /\ asked' = <<>>
  /\ UNCHANGED <<inp, pwn, area>>

Leaf ==
  /\ IsEvent("leaf")
  /\ inp # <<>>
  /\ Require(LET claim == Ids(asked.has) IN MayBegin(claim))
  /\ stack' = Begin(stack, Ids(asked.has))
  /\ leaf' = <<[claim |-> Ids(asked.has), pieces |-> {}]>>
  /\ pwn' = inp.pwn
  /\ asked' = <<>>
  /\ UNCHANGED <<inp, area>>

Leave ==
  /\ IsEvent("leave")
  /\ Require(/\ stack # <<>> /\ asked = <<>> /\ LeafDone
             /\ LET t == stack[Len(stack)] IN t.kids = 2 /\ t.seen = t.claim /\ t.h = Ev.h)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ leaf' = <<>>
  /\ UNCHANGED <<inp, pwn, asked, area>>

\* side the first child of the k-th open split must be on, after seeing f
FirstSide(k, f) == LET s == SideOf(inp, stack[k].h, f) IN IF stack[k].kids = 1 THEN s ELSE -s

Accept ==
  /\ IsEvent("accept")
  /\ Require(/\ leaf # <<>> /\ asked # <<>>
             /\ LET f == Ev.f
                    src == inp.f[f.id + 1]
                IN /\ f.id \in leaf[1].claim
                   /\ \A p \in leaf[1].pieces : p.id # f.id /\ SameSet(inp, p, f)
                   /\ Good(inp, f)
                   /\ SameNormal(f, src)
                   /\ \A i \in 1..Len(f.v) : Within(inp, src, inp.pts[f.v[i]])
                   /\ SidesOk(inp, f)
                   /\ \A k \in 1..Len(stack) : /\ FirstSide(k, f) # 0
                                               /\ stack[k].side \in {0, FirstSide(k, f)}
                   /\ asked.pwn = [pwn EXCEPT ![f.id + 1] = @ + Change(inp, f)])
  /\ leaf' = <<[leaf[1] EXCEPT !.pieces = @ \cup {Ev.f}]>>
  /\ pwn' = asked.pwn
  /\ asked' = <<>>
  /\ stack' = [k \in 1..Len(stack) |-> [stack[k] EXCEPT !.side = FirstSide(k, Ev.f)]]
  /\ area' = IF ZSgn(inp.L) = 0 THEN area ELSE [area EXCEPT ![Ev.f.id] = @ ++ Area(inp, Ev.f)]
  /\ UNCHANGED inp

Done ==
  /\ IsEvent("done")
  /\ Require(/\ inp # <<>> /\ stack = <<>> /\ asked = <<>> /\ LeafDone
             /\ Ev.same
             /\ ZSgn(inp.L) # 0 => \A i \in DOMAIN area : ZEq(area[i], Area(inp, inp.f[i + 1])))
  /\ inp' = <<>> /\ leaf' = <<>>
  /\ UNCHANGED <<stack, pwn, asked, area>>

---------------------------------------------------------------------------
(* With a filter: at every point the facets given to the visitor are those
   across which the answer changes, for some order of peeling.               *)
Wind(p) == [i \in 0..(Len(p) - 1) |-> p[i + 1]]
RECURSIVE Peel(_, _, _, _, _)
\* C: remaining facets there, K: indices of facets given to the visitor there
Peel(e, p, C, K, acc) ==
  IF C = {} THEN K = {}
  ELSE \E i \in C :
         LET f == e.f[i]
             q == [p EXCEPT ![f.id + 1] = @ + Change(e, f)]
             flip == Holds(e.filter, Wind(p)) # Holds(e.filter, Wind(q))
             M == {k \in K : acc[k].id = f.id /\ SameNormal(acc[k], f)}
         IN IF flip THEN M # {} /\ Peel(e, q, C \ {i}, K \ {CHOOSE k \in M : TRUE}, acc)
            ELSE Peel(e, q, C \ {i}, K, acc)

Filter ==
  /\ IsEvent("filter")
  /\ inp = <<>>
  /\ Require(\A k \in 1..Len(Ev.acc) : Good(Ev, Ev.acc[k]))
  /\ Require(\A q \in 1..Len(Ev.qs) :
       LET e == Ev
           p == e.qs[q]
           In(f) == Inside(e, f, p)
           Edge(f) == Within(e, f, p) /\ ~In(f)
       IN \/ \E i \in 1..Len(e.f) : Edge(e.f[i])
          \/ \E k \in 1..Len(e.acc) : Edge(e.acc[k])
          \/ Peel(e, e.pwn, {i \in 1..Len(e.f) : In(e.f[i])}, {k \in 1..Len(e.acc) : In(e.acc[k])}, e.acc))
  /\ UNCHANGED <<inp, stack, leaf, pwn, asked, area>>

Next == \/ Run \/ Ask \/ Enter \/ Leaf \/ Leave \/ Accept \/ Done \/ Filter
        \/ (AtEnd /\ UNCHANGED <<inp, stack, leaf, pwn, asked, area>>)
Spec == Init /\ [][Next]_vars
===============================================================================
