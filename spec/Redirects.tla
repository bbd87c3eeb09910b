------------------------------- MODULE Redirects -------------------------------
(* Handles that can be joined.  All the handles of one class read one value. *)
EXTENDS Naturals, FiniteSets

VARIABLES cls, val      \* class of every handle (its value's owner); value of every class
rvars == <<cls, val>>

Handles == DOMAIN cls
RInit == cls = << >> /\ val = << >>
NextHandle == Cardinality(Handles) + 1
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

New(h, v) == h = NextHandle /\ cls' = With(cls, h, h) /\ val' = With(val, h, v)
Copy(h, g) == h = NextHandle /\ g \in Handles /\ cls' = With(cls, h, cls[g]) /\ UNCHANGED val
\* everything that reads as h reads as g from now on
Joined(h, g) == [x \in Handles |-> IF cls[x] = cls[h] THEN cls[g] ELSE cls[x]]
Join(h, g) == h \in Handles /\ g \in Handles /\ cls' = Joined(h, g) /\ UNCHANGED val
Set(h, v) == h \in Handles /\ val' = With(val, cls[h], v) /\ UNCHANGED cls
================================================================================
