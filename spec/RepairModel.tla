------------------------------ MODULE RepairModel ------------------------------
(* Splitting one facet into planar parts.  Some of its vertices can no longer be
   moved (they are already on three planes); a part takes vertices from the
   beginning of what remains of the ring, then from its end, as long as the
   vertices that cannot be moved lie on one plane, and, where the numbers of its
   plane became large, stops at the first vertex that would have to be moved.
   Whatever vertices are fixed and wherever they are, the parts must make up the
   facet: their edges cancel except for those of the ring, in its direction, and
   the fixed vertices of a part are on one plane.
   Every choice of fixed vertices and heights is printed and carried out.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxN
VARIABLES n, fix, h, large, b, e, first, last, cons, used, parts, pc
vars == <<n, fix, h, large, b, e, first, last, cons, used, parts, pc>>

Corner == << <<0, 0>>, <<3, -1>>, <<6, 0>>, <<7, 3>>, <<4, 6>>, <<0, 4>> >>
At(i) == << Corner[i][1], Corner[i][2], h[i] >>
Minus(p, q) == << p[1] - q[1], p[2] - q[2], p[3] - q[3] >>
Det(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
Coplanar(i, j, k, m) == Det(Minus(At(j), At(i)), Minus(At(k), At(i)), Minus(At(m), At(i))) = 0
OnPlane(i) == IF Len(cons) < 3 THEN TRUE ELSE Coplanar(cons[1], cons[2], cons[3], i)

Init == /\ n \in 3..MaxN
        /\ fix \in [1..n -> BOOLEAN]
        /\ h \in [1..n -> 0..1] /\ \A i \in 1..n : fix[i] \/ h[i] = 0
        /\ large \in BOOLEAN
        /\ b = 1 /\ e = n /\ first = << >> /\ last = << >> /\ cons = << >> /\ used = 0 /\ parts = << >> /\ pc = "last"

Same == UNCHANGED <<n, fix, h, large>>
\* the effect of one more vertex on the plane of the part
Note(i) == /\ cons' = IF fix[i] /\ Len(cons) < 3 THEN Append(cons, i) ELSE cons
           /\ used' = IF fix[i] THEN (IF Len(cons) < 3 THEN used + 1 ELSE used) ELSE (IF used < 3 THEN used + 1 ELSE used)
Taken(i) == IF fix[i] THEN OnPlane(i) ELSE ~(large /\ used >= 3)

Last == /\ pc = "last" /\ Same
        /\ Note(e) /\ last' = <<e>> /\ first' = << >>
        /\ e' = e - 1 /\ pc' = "first" /\ UNCHANGED <<b, parts>>
First == /\ pc = "first" /\ b <= e /\ Taken(b) /\ Same
         /\ Note(b) /\ first' = Append(first, b) /\ b' = b + 1
         /\ UNCHANGED <<e, last, parts, pc>>
\* a fixed vertex off the plane: go on from the end
Refuse == /\ pc = "first" /\ b <= e /\ ~Taken(b) /\ Same
          /\ pc' = IF fix[b] THEN "end" ELSE "emit"
          /\ UNCHANGED <<b, e, first, last, cons, used, parts>>
End == /\ pc = "end" /\ Taken(e) /\ Same
       /\ Note(e) /\ last' = <<e>> \o last /\ e' = e - 1
       /\ UNCHANGED <<b, first, parts, pc>>
EndStop == /\ pc = "end" /\ ~Taken(e) /\ Same /\ pc' = "emit" /\ UNCHANGED <<b, e, first, last, cons, used, parts>>
AllIn == /\ pc = "first" /\ b > e /\ Same /\ pc' = "emit" /\ UNCHANGED <<b, e, first, last, cons, used, parts>>
Emit == /\ pc = "emit" /\ Same
        /\ parts' = Append(parts, first \o last)
        /\ cons' = << >> /\ used' = 0 /\ UNCHANGED <<first, last>>
        /\ IF b > e THEN pc' = "done" /\ UNCHANGED <<b, e>>
           ELSE pc' = "last" /\ b' = b - 1 /\ e' = e + 1
Next == Last \/ First \/ Refuse \/ End \/ EndStop \/ AllIn \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Edges(s) == { <<s[i], s[IF i = Len(s) THEN 1 ELSE i + 1]>> : i \in 1..Len(s) }
Count(x, y) == Cardinality({ k \in 1..Len(parts) : <<x, y>> \in Edges(parts[k]) })
Ring == [i \in 1..n |-> i]

InOrder == b >= 1 /\ e <= n /\ b <= e + 1
MakesUpTheFacet == pc = "done" => \A x \in 1..n : \A y \in 1..n :
                     Count(x, y) - Count(y, x) = (IF <<x, y>> \in Edges(Ring) THEN 1 ELSE 0) - (IF <<y, x>> \in Edges(Ring) THEN 1 ELSE 0)
PartsAreRings == \A k \in 1..Len(parts) : Len(parts[k]) >= 3 /\ Cardinality({ parts[k][i] : i \in 1..Len(parts[k]) }) = Len(parts[k])
PartsArePlanar == \A k \in 1..Len(parts) : \A i, j, m, o \in { x \in { parts[k][y] : y \in 1..Len(parts[k]) } : fix[x] } : Coplanar(i, j, m, o)
OnlyWhenForced == pc = "done" /\ Len(parts) > 1 => large \/ \E i, j, m, o \in { x \in 1..n : fix[x] } : ~Coplanar(i, j, m, o)
Ends == <>(pc = "done")

Tell == pc = "done" => PrintT("RUN " \o ToString(<<n, IF large THEN 1 ELSE 0>> \o [i \in 1..n |-> IF fix[i] THEN 1 + h[i] ELSE 0]))
=================================================================================
