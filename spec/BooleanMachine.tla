---------------------------- MODULE BooleanMachine ----------------------------
(* The BSP tree as a user sees it: a machine holding one closed mesh per id,
   whose Traverse(filter) action produces a surface.  The only admissible
   surface is one that bounds exactly the region the filter describes.       *)
EXTENDS Geom, Conformance

VARIABLES mesh,    \* id -> sequence of meshes (the pieces added so far)
          vol      \* key of an operation -> <<six times the volume times L^3, L>>

vars == <<c, l, mesh, vol>>

Init == TraceStart /\ mesh = <<>> /\ vol = <<>>

NewTree == IsEvent("newtree") /\ mesh' = <<>> /\ UNCHANGED vol

At(fn, k, dflt) == IF k \in DOMAIN fn THEN fn[k] ELSE dflt

Add == /\ IsEvent("add")
       /\ LET piece == [pts |-> Ev.pts, f |-> Ev.f] IN
          /\ Require(ValidMesh(piece))
          /\ mesh' = (Ev.id :> Append(At(mesh, Ev.id, <<>>), piece)) @@ mesh
       /\ UNCHANGED vol

SumWinding(s, q) == ZSumSeq([i \in 1..Len(s) |-> Winding(s[i], q)])

(* Winding number of every mesh around q; meshes never added have 0. *)
Pwn(q) == TLCEval([id \in DOMAIN mesh |-> SumWinding(mesh[id], q)])
W(w, id) == At(w, id, 0)

(* What a filter means at a point with winding numbers w. *)
RECURSIVE Holds(_, _)
Holds(f, w) ==
  CASE f.k = "pos" -> W(w, f.id) > 0
    [] f.k = "nonneg" -> W(w, f.id) >= 0
    [] f.k = "odd" -> W(w, f.id) % 2 = 1
    [] f.k = "and" -> Holds(f.a, w) /\ Holds(f.b, w)
    [] f.k = "or" -> Holds(f.a, w) \/ Holds(f.b, w)
    [] f.k = "xor" -> Holds(f.a, w) # Holds(f.b, w)
    [] f.k = "union" -> \E i \in 1..Len(f.ids) : W(w, f.ids[i]) > 0
    [] f.k = "isect" -> \A i \in 1..Len(f.ids) : W(w, f.ids[i]) > 0
    [] f.k = "sub" -> /\ f.ids # <<>> /\ W(w, f.ids[1]) > 0
                      /\ \A i \in 2..Len(f.ids) : W(w, f.ids[i]) >= 0

(* Far away every winding number is 0.  An operation that holds there describes
   an unbounded region, and its surface then winds -1 around the holes.      *)
Everywhere(f) == Holds(f, [id \in DOMAIN mesh |-> 0])

(* Facets keep the orientation they came in with (which is why a subtracted
   mesh has to be reversed by the caller), so the surface is oriented only when
   the operation never turns from true to false as a winding number grows.
   Otherwise the facets separate inside from outside without orientation.    *)
RECURSIVE Oriented(_)
Oriented(f) == CASE f.k \in {"odd", "xor"} -> FALSE
                 [] f.k \in {"and", "or"} -> Oriented(f.a) /\ Oriented(f.b)
                 [] OTHER -> TRUE

Exact(out, f, qs) ==
  \A i \in 1..Len(qs) :
    LET w == Pwn(qs[i])
        want == (IF Holds(f, w) THEN 1 ELSE 0) - (IF Everywhere(f) THEN 1 ELSE 0)
        got == Winding(out, qs[i])
    IN IF Oriented(f) THEN got = want ELSE (got - want) % 2 = 0

VolumeOf(out, e) == IF ZSgn(e.L) = 0 THEN <<>> ELSE <<Volume6(out, e.m), e.L>>

Traverse ==
  /\ IsEvent("trav")
  /\ LET out == [pts |-> Ev.pts, f |-> Ev.f] IN
     /\ Require(ValidMesh(out))
     /\ Require(ClosedMod(out, ~Oriented(Ev.filter)))
     /\ Require(Exact(out, Ev.filter, Ev.qs))
     /\ Ev.errors = 0
     /\ vol' = IF Ev.key = "" THEN vol ELSE (Ev.key :> VolumeOf(out, Ev)) @@ vol
  /\ UNCHANGED mesh

(* Inclusion and exclusion, as an identity between volumes with different
   denominators: sum of s_i * v_i / L_i^3 = 0.                               *)
Cube(x) == (x ** x) ** x
RECURSIVE Prod(_, _)
Prod(ks, i) == IF i > Len(ks) THEN 1 ELSE Cube(vol[ks[i]][2]) ** Prod(ks, i + 1)
RECURSIVE Comb(_, _, _)
Comb(ks, ss, i) ==
  IF i > Len(ks) THEN 0
  ELSE ((ss[i] ** vol[ks[i]][1]) ** Prod(SubSeq(ks, 1, i - 1) \o SubSeq(ks, i + 1, Len(ks)), 1)) ++ Comb(ks, ss, i + 1)
Identity(ks, ss) == (\A i \in 1..Len(ks) : vol[ks[i]] # <<>>) => ZSgn(Comb(ks, ss, 1)) = 0

Volumes ==
  /\ IsEvent("volumes")
  /\ Require(Identity(<<"or", "and", "a", "b">>, <<1, 1, -1, -1>>))
  /\ Require(Identity(<<"sub", "a", "and">>, <<1, -1, 1>>))
  /\ UNCHANGED <<mesh, vol>>

Next == \/ NewTree \/ Add \/ Traverse \/ Volumes
        \/ (AtEnd /\ UNCHANGED <<mesh, vol>>)
Spec == Init /\ [][Next]_vars
===============================================================================
