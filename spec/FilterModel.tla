------------------------------ MODULE FilterModel ------------------------------
(* The walk of one region down the tree, for every filter in Fs: while a mesh is
   undecided its winding number may still change; once it is decided it does
   not.  Checked: the composition rule for answers (Ans, the rule the filters
   use) is admissible in every reachable state, and a "cannot change" answer is
   final.  Every reachable state is printed; the driver asks the real filters
   about it.                                                                 *)
EXTENDS Filters

CONSTANT N, Bound
Ids == 0..(N - 1)
VARIABLES w, open
vars == <<w, open>>

Init == w \in [Ids -> {0}] /\ open = Ids
Move(i) == i \in open /\ \E d \in {-1, 1} : w[i] + d \in (-Bound)..Bound /\ w' = [w EXCEPT ![i] = @ + d] /\ UNCHANGED open
Decide(i) == i \in open /\ open' = open \ {i} /\ UNCHANGED w
Next == \E i \in Ids : Move(i) \/ Decide(i)
Spec == Init /\ [][Next]_vars

Atom(k, i) == [k |-> k, id |-> i]
Bin(k, a, b) == [k |-> k, a |-> a, b |-> b]
List(k, s) == [k |-> k, ids |-> s]
Atoms == {Atom(k, i) : k \in {"pos", "nonneg", "odd"}, i \in Ids}
Bins == {Bin(k, a, b) : k \in {"and", "or", "xor"}, a \in Atoms, b \in Atoms}
Lists == {List(k, s) : k \in {"union", "isect", "sub"},
                       s \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2, 0>>, <<2, 1, 0>>, <<0, 2, 1>>, <<1, 3>>, <<3, 1>>, <<>>}}
Nested == {Bin(k, Bin(j, Atom("pos", 0), Atom("pos", 1)), x) : k \in {"and", "or", "xor"}, j \in {"and", "or", "xor"},
             x \in {Atom("pos", 2), Atom("nonneg", 2), Atom("odd", 0)}}
Fs == Atoms \cup Bins \cup Lists \cup Nested

(* The composition rule. *)
And2(a, b) == <<a[1] /\ b[1], (a[1] \/ a[2]) /\ (b[1] \/ b[2]) /\ (a[2] \/ b[2])>>
Or2(a, b) == <<a[1] \/ b[1], (~a[1] \/ a[2]) /\ (~b[1] \/ b[2]) /\ (a[2] \/ b[2])>>
Xor2(a, b) == <<a[1] # b[1], a[2] \/ b[2]>>
RECURSIVE Ans(_)
AnsAt(k, i) == <<Holds([k |-> k, id |-> i], w), i \in open>>
RECURSIVE AndAll(_, _)
AndAll(s, i) == IF i > Len(s) THEN <<TRUE, FALSE>>
                ELSE And2(AnsAt(s[i].k, s[i].id), AndAll(s, i + 1))
RECURSIVE OrAll(_, _)
OrAll(s, i) == IF i > Len(s) THEN <<FALSE, FALSE>> ELSE Or2(AnsAt(s[i].k, s[i].id), OrAll(s, i + 1))
Ans(f) ==
  CASE f.k \in {"pos", "nonneg", "odd"} -> AnsAt(f.k, f.id)
    [] f.k = "and" -> And2(Ans(f.a), Ans(f.b))
    [] f.k = "or" -> Or2(Ans(f.a), Ans(f.b))
    [] f.k = "xor" -> Xor2(Ans(f.a), Ans(f.b))
    [] f.k = "union" -> OrAll([i \in 1..Len(f.ids) |-> Atom("pos", f.ids[i])], 1)
    [] f.k = "isect" -> AndAll([i \in 1..Len(f.ids) |-> Atom("pos", f.ids[i])], 1)
    [] f.k = "sub" -> IF f.ids = <<>> THEN <<FALSE, FALSE>>
                      ELSE AndAll([i \in 1..Len(f.ids) |-> Atom(IF i = 1 THEN "pos" ELSE "nonneg", f.ids[i])], 1)

RuleAdmissible == \A f \in Fs : AnswerOk(f, w, open, Ans(f))
FinalIsFinal == [][\A f \in Fs : ~Ans(f)[2] => (Holds(f, w)' = Holds(f, w) /\ ~(Ans(f)'[2]))]_vars

Bit(i) == IF i \in open THEN 1 ELSE 0
Emit == PrintT("STATE " \o ToString([i \in 1..N |-> w[i - 1]]) \o ToString([i \in 1..N |-> Bit(i - 1)]))
===============================================================================
