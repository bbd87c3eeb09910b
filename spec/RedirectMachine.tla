---------------------------- MODULE RedirectMachine ----------------------------
(* Recorded histories of real handles, and of mapping the vertices of a mesh to
   floating point values: there the values found so far are the handles, and
   mapping a side joins the values of the side and of the next side around its
   vertex.  rep[h] is the owner of what handle h reads, read[h] its value.    *)
EXTENDS Redirects, Conformance

vars == <<c, l, cls, val>>
Init == TraceStart /\ RInit

\* equal owner <=> joined; the owners found are handles of their own class
SeenOk(rep, class) == \A h \in DOMAIN class :
  /\ rep[h] \in DOMAIN class /\ class[rep[h]] = class[h]
  /\ \A g \in DOMAIN class : (rep[h] = rep[g]) = (class[h] = class[g])

Do(s) ==
  \/ s[1] = 1 /\ New(s[2], s[3])
  \/ s[1] = 2 /\ Copy(s[2], s[3])
  \/ s[1] = 3 /\ Join(s[2], s[3])
  \/ s[1] = 4 /\ Set(s[2], s[3])
Step ==
  /\ IsEvent("step")
  /\ Do(Ev.s)
  /\ Require(Len(Ev.rep) = Cardinality(DOMAIN cls') /\ SeenOk(Ev.rep, cls'))
  /\ Require(\A h \in DOMAIN cls' : Ev.read[h] = val'[cls'[h]])
  /\ Require(Ev.eq)
  \* every value lives until its class is joined to another
  /\ Require(Ev.live = Cardinality({cls'[h] : h \in DOMAIN cls'}))

\* side with value d, the next side around the vertex has value e (0: none)
Found(d) == IF d \in Handles THEN cls ELSE With(cls, d, d)
Map ==
  /\ IsEvent("map")
  /\ LET d == Ev.d
         e == Ev.next
         k == Found(d)
     IN cls' = IF e = 0 THEN k
               ELSE IF e \notin DOMAIN k THEN With(k, e, k[d])
               ELSE [x \in DOMAIN k |-> IF k[x] = k[d] THEN k[e] ELSE k[x]]
  /\ UNCHANGED val
  /\ Require(Len(Ev.rep) = Cardinality(DOMAIN cls') /\ SeenOk(Ev.rep, cls'))
  /\ Require(Ev.key)
  /\ Require(Ev.merged = (Ev.next \in Handles /\ (Ev.d \notin Handles \/ cls[Ev.d] # cls[Ev.next])))
\* once every side was mapped: sides around one vertex read one value
Ring ==
  /\ IsEvent("ring")
  /\ Require(\A s \in 1..Len(Ev.vertex) : \A t \in 1..Len(Ev.vertex) :
               Ev.vertex[s] = Ev.vertex[t] => Ev.read[s] = Ev.read[t])
  /\ Require(\A s \in 1..Len(Ev.d) : \A t \in 1..Len(Ev.d) :
               (Ev.read[s] = Ev.read[t]) = (cls[Ev.d[s]] = cls[Ev.d[t]]))
  /\ UNCHANGED rvars

Next == Step \/ Map \/ Ring \/ (AtEnd /\ UNCHANGED rvars)
Spec == Init /\ [][Next]_vars
================================================================================
