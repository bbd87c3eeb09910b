------------------------------- MODULE RangeModel -------------------------------
(* Two ranges put together from parts of a base sequence, of each other, and of
   themselves.  A part is [a, b) of the base; "" parts never show.  Every step out
   of every state within the bounds is printed and carried out.                 *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxLen, MaxParts, MaxPart
VARIABLES parts, hist
vars == <<parts, hist>>
View == parts

RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE Head(s) + Total(Tail(s))
R == {1, 2}

Min(a, b) == IF a < b THEN a ELSE b
\* the parts of s between places i and j
RECURSIVE Cut(_, _, _)
Cut(s, i, j) ==
  IF s = << >> \/ i >= j THEN << >>
  ELSE IF i >= Head(s) THEN Cut(Tail(s), i - Head(s), j - Head(s))
  ELSE << Min(Head(s), j) - i >> \o (IF j > Head(s) THEN Cut(Tail(s), 0, j - Head(s)) ELSE << >>)
Add(n) == IF n = 0 THEN << >> ELSE << n >>

Init == parts = [r \in R |-> << >>] /\ hist = << >>
Put(r, s) == /\ Total(s) <= MaxLen /\ Len(s) <= MaxParts
             /\ parts' = [parts EXCEPT ![r] = s]
Step(op, r, a, b) == hist' = Append(hist, <<op, r, a, b>>)
Next == \E r \in R :
  \/ \E n \in 0..MaxPart : \/ Put(r, parts[r] \o Add(n)) /\ Step(1, r, n, 0)
                           \/ Put(r, Add(n) \o parts[r]) /\ Step(2, r, n, 0)
  \/ \E i \in 0..Total(parts[3 - r]), j \in 0..Total(parts[3 - r]) :
       /\ i <= j
       /\ \/ Put(r, parts[r] \o Cut(parts[3 - r], i, j)) /\ Step(3, r, i, j)
          \/ Put(r, Cut(parts[3 - r], i, j) \o parts[r]) /\ Step(4, r, i, j)
  \/ Put(r, << >>) /\ Step(5, r, 0, 0)
Spec == Init /\ [][Next]_vars
Emit == PrintT("RUN " \o ToString(hist'))
NoEmptyParts == \A r \in R : \A k \in 1..Len(parts[r]) : parts[r][k] > 0
=================================================================================
