------------------------------ MODULE RangeMachine ------------------------------
(* Concatenated ranges as plain sequences, and iterators as places in them. *)
EXTENDS Conformance, Sequences

VARIABLES seq       \* what every range reads as
vars == <<c, l, seq>>
Init == TraceStart /\ seq = << <<>>, <<>>, <<>> >>

Slice(s, i, j) == SubSeq(s, i + 1, j)
New(r) ==
  CASE Ev.how = 1 -> seq[r] \o Ev.items
    [] Ev.how = 2 -> Ev.items \o seq[r]
    [] Ev.how = 3 -> seq[r] \o Slice(seq[Ev.from], Ev.i, Ev.j)
    [] Ev.how = 4 -> Slice(seq[Ev.from], Ev.i, Ev.j) \o seq[r]
    [] Ev.how = 5 -> << >>
Change ==
  /\ IsEvent("change")
  /\ seq' = [seq EXCEPT ![Ev.r] = New(Ev.r)]
  /\ LET s == seq'[Ev.r]
         n == Len(s)
         rev == [k \in 1..n |-> s[n + 1 - k]]
     IN /\ Require(Ev.fwd = s /\ Ev.cfwd = s)
        /\ Require(Ev.bwd = rev /\ Ev.rfwd = rev /\ Ev.crfwd = rev)
        \* from every place: same[i][j], and where an offset leads and reads
        /\ Require(\A i \in 0..n : \A j \in 0..n : Ev.same[i + 1][j + 1] = (i = j))
        /\ Require(\A i \in 0..n : \A k \in 0..(n - i) : Ev.plus[i + 1][k + 1] = i + k)
        /\ Require(\A i \in 0..n : \A k \in 0..(n - i - 1) : Ev.at[i + 1][k + 1] = s[i + k + 1])

\* a walk: <<what, argument, result>>; z is the place, e the element there (0 at the end)
Elem(s, z) == IF z < Len(s) THEN s[z + 1] ELSE 0
Sign(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
To(z, w) == CASE w[1] = 1 -> z + 1
              [] w[1] = 2 -> z - 1
              [] w[1] = 3 -> z + 1
              [] w[1] = 4 -> z - 1
              [] w[1] \in {6, 8} -> z + w[2]
              [] w[1] \in {7, 9} -> z - w[2]
              [] w[1] = 12 -> w[2]
              [] OTHER -> z
Gives(s, z, w) ==
  CASE w[1] \in {3, 4} -> Elem(s, z)                \* the old place is returned
    [] w[1] = 5 -> Elem(s, z + w[2])
    [] w[1] = 10 -> Sign(z, w[2])
    [] w[1] = 11 -> z - w[2]
    [] OTHER -> Elem(s, To(z, w))
RECURSIVE Walk(_, _, _)
Walk(s, z, k) == \/ k > Len(Ev.walk)
                 \/ Ev.walk[k][3] = Gives(s, z, Ev.walk[k]) /\ Walk(s, To(z, Ev.walk[k]), k + 1)
Walked == IsEvent("walk") /\ UNCHANGED seq /\ Require(Walk(IF Ev.r = 0 THEN Ev.items ELSE seq[Ev.r], Ev.start, 1))

Next == Change \/ Walked \/ (AtEnd /\ UNCHANGED seq)
Spec == Init /\ [][Next]_vars
=================================================================================
