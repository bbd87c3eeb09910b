------------------------------- MODULE DeedModel -------------------------------
(* Every history of a few objects and deeds.  The history that first led to a
   state is kept beside it (it is not part of the state); for every step out of
   every state the history and the step are printed, and the driver carries
   them out on real deeds.                                                   *)
EXTENDS Deeds, Sequences, TLC

VARIABLE hist
vars == <<objs, deeds, has, from, to, own, hist>>
View == dvars

Init == DeedsInit /\ hist = <<>>
Step(op, a, b) == hist' = Append(hist, <<op, a, b>>)
Next ==
  \/ \E o \in O : \/ NewObj(o) /\ Step(1, o, 0)
                  \/ DropObj(o) /\ Step(2, o, 0)
  \/ \E o \in O, p \in O : \/ CopyObj(o, p) /\ Step(3, o, p)
                           \/ MoveObj(o, p) /\ Step(4, o, p)
                           \/ CopyAssignObj(o, p) /\ Step(5, o, p)
                           \/ MoveAssignObj(o, p) /\ Step(6, o, p)
  \/ \E h \in H : \/ NewDeed(h) /\ Step(7, h, 0)
                  \/ DropDeed(h) /\ Step(8, h, 0)
                  \/ Return(h) /\ Step(9, h, 0)
  \/ \E h \in H, k \in H : \/ Lend(h, k) /\ Step(10, h, k)
                           \/ MoveDeed(h, k) /\ Step(11, h, k)
                           \/ SwapDeed(h, k) /\ Step(12, h, k)
                           \/ SwapDeed(h, k) /\ Step(13, h, k)
  \/ \E h \in H, o \in O : Claim(h, o) /\ Step(14, h, o)
Spec == Init /\ [][Next]_vars
\* evaluated once for every step, also for those that lead to a known state
Emit == PrintT("RUN " \o ToString(hist'))
Invs == OneOwner /\ OwnerHolds /\ HolderOwns /\ LoansPair /\ LoansEnd /\ DeadEmpty
================================================================================
