------------------------------ MODULE DeedMachine ------------------------------
(* Recorded histories of real deeds, against Deeds.  After every step all the
   holders were read: seen[h] is the object reached, -1 if h is lent out or does
   not exist.

   "ring" events: deeds to the sides of polygons that are split, turned and
   moved.  A side is known by the vertex it starts from.                      *)
EXTENDS Deeds, Conformance

VARIABLES at
vars == <<c, l, objs, deeds, has, from, to, own, at>>
NObj == 6
NHold == 6
Init == TraceStart /\ DeedsInit /\ at = <<>>

Do(s) ==
  \/ s[1] = 1 /\ NewObj(s[2])
  \/ s[1] = 2 /\ DropObj(s[2])
  \/ s[1] = 3 /\ CopyObj(s[2], s[3])
  \/ s[1] = 4 /\ MoveObj(s[2], s[3])
  \/ s[1] = 5 /\ CopyAssignObj(s[2], s[3])
  \/ s[1] = 6 /\ MoveAssignObj(s[2], s[3])
  \/ s[1] = 7 /\ NewDeed(s[2])
  \/ s[1] = 8 /\ DropDeed(s[2])
  \/ s[1] = 9 /\ Return(s[2])
  \/ s[1] = 10 /\ Lend(s[2], s[3])
  \/ s[1] = 11 /\ MoveDeed(s[2], s[3])
  \/ s[1] = 12 /\ SwapDeed(s[2], s[3])
  \/ s[1] = 13 /\ SwapDeed(s[2], s[3])
  \/ s[1] = 14 /\ Claim(s[2], s[3])

Seen(h) == IF h \in deeds' /\ to'[h] = 0 THEN has'[h] ELSE -1
Lent(h) == IF h \in deeds' /\ to'[h] # 0 THEN 1 ELSE 0
StepEv ==
  /\ IsEvent("step")
  /\ Do(Ev.s)
  /\ Require(\A h \in 1..Len(Ev.seen) : Ev.seen[h] = Seen(h) /\ Ev.lent[h] = Lent(h))
  /\ UNCHANGED at

\* at[i] = <<polygon, start vertex>> of deed i
Start == IsEvent("claim") /\ at' = Ev.at /\ Require(Ev.seen = Ev.at) /\ UNCHANGED dvars
Where(i) == LET k == {j \in 1..Len(Ev.ren) : Ev.ren[j][1] = at[i][1]} IN
            IF k = {} THEN at[i] ELSE << Ev.ren[CHOOSE j \in k : TRUE][2], at[i][2] >>
Moved ==
  /\ IsEvent("ring")
  /\ at' = [i \in 1..Len(at) |-> Where(i)]
  /\ Require(Ev.seen = at')
  /\ UNCHANGED dvars

Next == StepEv \/ Start \/ Moved \/ (AtEnd /\ UNCHANGED <<objs, deeds, has, from, to, own, at>>)
Spec == Init /\ [][Next]_vars
================================================================================
