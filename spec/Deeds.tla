--------------------------------- MODULE Deeds ---------------------------------
(* Objects that can be owned, and the holders (deeds) that own or borrow them.
   0 stands for "none".  Slots of objects and holders may be empty.

     has[h]    the object holder h reaches (also while it is lent out)
     from[h]   the holder h borrowed from
     to[h]     the holder that borrowed from h; while it is set h cannot be used
     own[o]    the holder that answers for object o                            *)
EXTENDS Naturals, FiniteSets

CONSTANTS NO, NH
VARIABLES objs, deeds, has, from, to, own
dvars == <<objs, deeds, has, from, to, own>>

O == 1..NO
H == 1..NH
Zero(S) == [x \in S |-> 0]
DeedsInit == objs = {} /\ deeds = {} /\ has = Zero(H) /\ from = Zero(H) /\ to = Zero(H) /\ own = Zero(O)

Free(h) == h \in deeds /\ to[h] = 0     \* not lent out

\* --- objects
NewObj(o) == o \notin objs /\ objs' = objs \cup {o} /\ UNCHANGED <<deeds, has, from, to, own>>
CopyObj(o, p) == o \in objs /\ p \notin objs /\ objs' = objs \cup {p} /\ UNCHANGED <<deeds, has, from, to, own>>
CopyAssignObj(o, p) == o \in objs /\ p \in objs /\ UNCHANGED dvars
\* the holder follows the object to its new place
MoveObj(o, p) ==
  /\ o \in objs /\ p \notin objs
  /\ objs' = objs \cup {p}
  /\ own' = [own EXCEPT ![p] = own[o], ![o] = 0]
  /\ has' = IF own[o] = 0 THEN has ELSE [has EXCEPT ![own[o]] = p]
  /\ UNCHANGED <<deeds, from, to>>
\* p = move(o): the two objects change places
MoveAssignObj(o, p) ==
  /\ o \in objs /\ p \in objs
  /\ own' = [own EXCEPT ![p] = own[o], ![o] = own[p]]
  /\ has' = [h \in H |-> IF h = own[o] /\ h # 0 THEN p ELSE IF h = own[p] /\ h # 0 THEN o ELSE has[h]]
  /\ UNCHANGED <<objs, deeds, from, to>>
DropObj(o) ==
  /\ o \in objs /\ objs' = objs \ {o}
  /\ own' = [own EXCEPT ![o] = 0]
  /\ has' = IF own[o] = 0 THEN has ELSE [has EXCEPT ![own[o]] = 0]
  /\ UNCHANGED <<deeds, from, to>>

\* --- holders
NewDeed(h) == h \notin deeds /\ deeds' = deeds \cup {h} /\ UNCHANGED <<objs, has, from, to, own>>
\* a deed to an owned object is a loan from its owner
Claim(h, o) ==
  /\ h \notin deeds /\ o \in objs
  /\ deeds' = deeds \cup {h}
  /\ has' = [has EXCEPT ![h] = o]
  /\ from' = [from EXCEPT ![h] = own[o]]
  /\ to' = IF own[o] = 0 THEN to ELSE [to EXCEPT ![own[o]] = h]
  /\ own' = [own EXCEPT ![o] = h]
  /\ UNCHANGED objs
Lend(h, k) ==
  /\ Free(h) /\ k \notin deeds
  /\ deeds' = deeds \cup {k}
  /\ has' = [has EXCEPT ![k] = has[h]]
  /\ from' = [from EXCEPT ![k] = h]
  /\ to' = [to EXCEPT ![h] = k]
  /\ own' = IF has[h] = 0 THEN own ELSE [own EXCEPT ![has[h]] = k]
  /\ UNCHANGED objs
\* what h holds and owes goes to k
MoveDeed(h, k) ==
  /\ Free(h) /\ k \notin deeds
  /\ deeds' = deeds \cup {k}
  /\ has' = [has EXCEPT ![k] = has[h], ![h] = 0]
  /\ from' = [from EXCEPT ![k] = from[h], ![h] = 0]
  /\ to' = IF from[h] = 0 THEN to ELSE [to EXCEPT ![from[h]] = k]
  /\ own' = IF has[h] = 0 THEN own ELSE [own EXCEPT ![has[h]] = k]
  /\ UNCHANGED objs
\* swap, and k = move(h)
SwapDeed(h, k) ==
  /\ Free(h) /\ Free(k)
  /\ from[h] # k /\ from[k] # h
  /\ has' = [has EXCEPT ![k] = has[h], ![h] = has[k]]
  /\ from' = [from EXCEPT ![k] = from[h], ![h] = from[k]]
  /\ to' = [x \in H |-> IF x = from[h] /\ x # 0 THEN k ELSE IF x = from[k] /\ x # 0 THEN h ELSE to[x]]
  /\ own' = [o \in O |-> IF o = has[h] THEN k ELSE IF o = has[k] THEN h ELSE own[o]]
  /\ UNCHANGED <<objs, deeds>>
Give(h) ==    \* the effect of giving up what h holds
  /\ has' = IF from[h] = 0 THEN [has EXCEPT ![h] = 0] ELSE [has EXCEPT ![from[h]] = has[h], ![h] = 0]
  /\ from' = [from EXCEPT ![h] = 0]
  /\ to' = IF from[h] = 0 THEN to ELSE [to EXCEPT ![from[h]] = 0]
  /\ own' = IF has[h] = 0 THEN own ELSE [own EXCEPT ![has[h]] = from[h]]
Return(h) == Free(h) /\ Give(h) /\ UNCHANGED <<objs, deeds>>
DropDeed(h) == Free(h) /\ Give(h) /\ deeds' = deeds \ {h} /\ UNCHANGED objs

\* --- what must always hold
OneOwner == \A o \in O : Cardinality({h \in H : to[h] = 0 /\ has[h] = o}) <= 1
OwnerHolds == \A o \in O : IF o \in objs
                THEN own[o] # 0 => (own[o] \in deeds /\ has[own[o]] = o /\ to[own[o]] = 0)
                ELSE own[o] = 0
HolderOwns == \A h \in deeds : to[h] = 0 /\ has[h] # 0 => own[has[h]] = h
LoansPair == \A h \in H : /\ to[h] # 0 => from[to[h]] = h
                          /\ from[h] # 0 => to[from[h]] = h
RECURSIVE Reaches(_, _)
Reaches(h, n) == from[h] = 0 \/ (n > 0 /\ Reaches(from[h], n - 1))
LoansEnd == \A h \in H : Reaches(h, NH)
DeadEmpty == \A h \in H \ deeds : has[h] = 0 /\ from[h] = 0 /\ to[h] = 0
================================================================================
