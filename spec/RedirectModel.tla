----------------------------- MODULE RedirectModel -----------------------------
(* Histories of a few handles.  link is the chain of references behind the
   classes; it makes states differ that read alike, so that histories through
   every shape of the chains are printed and carried out.                     *)
EXTENDS Redirects, Sequences, TLC

CONSTANT MaxHandles
VARIABLES link, hist
vars == <<cls, val, link, hist>>
View == <<cls, link>>

RECURSIVE Root(_)
Root(h) == IF link[h] = h THEN h ELSE Root(link[h])

Init == RInit /\ link = << >> /\ hist = << >>
Step(op, a, b) == hist' = Append(hist, <<op, a, b>>)
Next ==
  \/ /\ NextHandle <= MaxHandles
     /\ \/ New(NextHandle, NextHandle) /\ link' = With(link, NextHandle, NextHandle) /\ Step(1, NextHandle, 0)
        \/ \E g \in Handles : Copy(NextHandle, g) /\ link' = With(link, NextHandle, g) /\ Step(2, NextHandle, g)
  \/ \E h \in Handles, g \in Handles :
       /\ Join(h, g) /\ Step(3, h, g)
       /\ link' = [link EXCEPT ![Root(h)] = Root(g)]
Spec == Init /\ [][Next]_vars
Emit == PrintT("RUN " \o ToString(hist'))
\* the chains lead to the owner of the value
Agree == \A h \in Handles : Root(h) = cls[h]
OneValue == \A h \in Handles : cls[h] \in DOMAIN val /\ cls[cls[h]] = cls[h]
================================================================================
