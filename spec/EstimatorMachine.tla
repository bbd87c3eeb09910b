--------------------------- MODULE EstimatorMachine -----------------------------
(* Recorded histories of estimators: every answer close to m log n when m <= 4 n,
   the same answer whatever was asked before, and split costs are sums of answers. *)
EXTENDS Conformance, Estimates

VARIABLE known      \* answers given so far: <<m, n>> -> answer
vars == <<c, l, known>>
Init == TraceStart /\ known = << >>

Fits(a) == \A k \in 1..Len(known) : ~(ZEq(known[k][1], a[1]) /\ ZEq(known[k][2], a[2])) \/ ZEq(known[k][3], a[3])
Est ==
  /\ IsEvent("est")
  /\ Require(Applies(Ev.m, Ev.n) => Close(Ev.val, Ev.m, Ev.n))
  /\ Require(ZEq(Ev.val, Ev.fresh))
  /\ Require(Fits(<<Ev.m, Ev.n, Ev.val>>))
  /\ known' = Append(known, <<Ev.m, Ev.n, Ev.val>>)

\* the cost of a split: neg and pos are <<total, excluded, answer of a fresh estimator
\* for (total, total - excluded + 1)>>
Side(s, f) == ZEq(f[1], s[1]) /\ ZEq(f[2], ZAdd(ZSub(s[1], s[2]), 1)) /\ (Applies(f[1], f[2]) => Close(f[3], f[1], f[2]))
Split ==
  /\ IsEvent("split")
  /\ Require(Side(Ev.neg, Ev.fneg) /\ Side(Ev.pos, Ev.fpos))
  /\ Require(ZEq(Ev.val, ZAdd(Ev.fneg[3], Ev.fpos[3])))
  /\ UNCHANGED known

Next == Est \/ Split \/ (AtEnd /\ UNCHANGED known)
Spec == Init /\ [][Next]_vars
=================================================================================
