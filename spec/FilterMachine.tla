----------------------------- MODULE FilterMachine -----------------------------
(* Answers of the real filters in given states. *)
EXTENDS Filters, Conformance

Init == TraceStart
W == [i \in 0..(Len(Ev.w) - 1) |-> Ev.w[i + 1]]
Open == {i - 1 : i \in {j \in 1..Len(Ev.open) : Ev.open[j]}}

Ask == /\ IsEvent("ask")
       /\ LET w == TLCEval(W)
              open == TLCEval(Open)
          IN Require(\A i \in 1..Len(Ev.fs) : AnswerOk(Ev.fs[i], w, open, Ev.r[i]))

Next == Ask \/ AtEnd
Spec == Init /\ [][Next]_<<c, l>>
===============================================================================
