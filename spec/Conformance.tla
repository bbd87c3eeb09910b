----------------------------- MODULE Conformance -----------------------------
(* Binding of a specification to recorded executions.

   The trace file holds one case per line: a sequence of events logged by a
   driver that calls the real library.  Every event is one call together with
   what it returned.  A trace specification has one action per kind of event;
   a case is accepted when every one of its events is taken.  If no action
   accepts the next event (a wrong result, or a CRASH event, which no action
   accepts) the state has no successor and TLC reports a deadlock.            *)
EXTENDS Z, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VT_TRACE)

VARIABLES c, l            \* the case and the next event in it

Events == Cases[c].ev
Ev == Cases[c].ev[l]

(* A condition on the event.  TLC evaluates a quantifier or implication that
   stands by itself in an action by branching on it; as the operand of = it is
   evaluated as a value.                                                     *)
Require(p) == p = TRUE

TraceStart == c \in 1..Len(Cases) /\ l = 1

IsEvent(op) == /\ l <= Len(Events)
               /\ Ev.op = op
               /\ l' = l + 1
               /\ c' = c

AtEnd == l > Len(Events) /\ UNCHANGED <<c, l>>
===============================================================================
