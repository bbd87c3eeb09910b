-------------------------------- MODULE Filters --------------------------------
(* Meaning of the mesh filters, and of an answer that may be given early.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

WAt(w, id) == IF id \in DOMAIN w THEN w[id] ELSE 0

(* w: winding number of every mesh (meshes it does not name have 0) *)
RECURSIVE Holds(_, _)
Holds(f, w) ==
  CASE f.k = "pos" -> WAt(w, f.id) > 0
    [] f.k = "nonneg" -> WAt(w, f.id) >= 0
    [] f.k = "odd" -> WAt(w, f.id) % 2 = 1
    [] f.k = "and" -> Holds(f.a, w) /\ Holds(f.b, w)
    [] f.k = "or" -> Holds(f.a, w) \/ Holds(f.b, w)
    [] f.k = "xor" -> Holds(f.a, w) # Holds(f.b, w)
    [] f.k = "union" -> \E i \in 1..Len(f.ids) : WAt(w, f.ids[i]) > 0
    [] f.k = "isect" -> \A i \in 1..Len(f.ids) : WAt(w, f.ids[i]) > 0
    [] f.k = "sub" -> /\ f.ids # <<>> /\ WAt(w, f.ids[1]) > 0
                      /\ \A i \in 2..Len(f.ids) : WAt(w, f.ids[i]) >= 0

RECURSIVE IdsOf(_)
IdsOf(f) == CASE f.k \in {"pos", "nonneg", "odd"} -> {f.id}
              [] f.k \in {"and", "or", "xor"} -> IdsOf(f.a) \cup IdsOf(f.b)
              [] OTHER -> {f.ids[i] : i \in 1..Len(f.ids)}

(* Representatives of every sign and parity a winding number can have. *)
Levels == {-2, -1, 0, 1, 2}

(* Some completion of the undecided meshes changes the answer. *)
CouldChange(f, w, open) ==
  LET U == open \cap IdsOf(f)
      now == Holds(f, w)
  IN U # {} /\ \E x \in [U -> Levels] : Holds(f, x @@ w) # now

(* An admissible answer <<inside, could change>>.  It may be cautious, but not
   about meshes the filter does not mention.                                 *)
AnswerOk(f, w, open, r) ==
  /\ r[1] = Holds(f, w)
  /\ CouldChange(f, w, open) => r[2]
  /\ r[2] => open \cap IdsOf(f) # {}
===============================================================================
