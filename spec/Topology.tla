------------------------------ MODULE Topology ------------------------------
(* Location algebra.  A topology T = [w, loc]: the globe is cut into atoms *)
(* 1..Len(w) (maximal sets of faces that no location separates), atom a    *)
(* has w[a] faces, loc maps names (GLO included, RoW not) to sequences of  *)
(* atoms.  A place is [k |-> "loc", n |-> name] or [k |-> "set", s |-> seq *)
(* of atoms] (a resolved Rest-of-World); row = [has, s].                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Faces(T, l) == IF l = "RoW" THEN {} ELSE Range(T.loc[l])
Covered(T, ls) == UNION {Faces(T, l) : l \in ls}
Globe(T) == Faces(T, "GLO")
ResolveRow(T, ls) == Globe(T) \ Covered(T, ls)
SizeOfFaces(T, S) == FoldSet(LAMBDA a, acc : acc + T.w[a], 0, S)

(* faces of a place; "none" for an undefined Rest-of-World *)
Undefined(p, row) == p.k = "loc" /\ p.n = "RoW" /\ ~row.has
PlaceFaces(T, p, row) == IF p.k = "set" THEN Range(p.s)
                         ELSE IF p.n = "RoW" THEN (IF row.has THEN Range(row.s) ELSE {})
                         ELSE Faces(T, p.n)
Minus(T, S, sub) == S \ Covered(T, Range(sub))

(* row resolves the parent; a child Rest-of-World given by name is always  *)
(* undefined, only the whole globe contains it                             *)
LocContains(T, parent, child, sub, row) ==
    LET pf == Minus(T, PlaceFaces(T, parent, row), sub) IN
    CASE child.k = "set" -> Range(child.s) # {} /\ Range(child.s) \subseteq pf
      [] child.k = "loc" /\ child.n = "RoW" -> parent.k = "loc" /\ parent.n = "GLO" /\ sub = <<>>
      [] OTHER -> ~Undefined(parent, row) /\ Faces(T, child.n) \subseteq pf

(* membership of a name in the set of contained locations *)
InContained(T, n, place, exclself, sub, row) ==
    LET pf == Minus(T, PlaceFaces(T, place, row), sub) IN
    IF Undefined(place, row) \/ pf = {} THEN FALSE
    ELSE IF n = "RoW"
         THEN IF row.has THEN Range(row.s) # {} /\ Range(row.s) \subseteq pf /\ ~(place.k = "loc" /\ place.n = "RoW" /\ exclself)
              ELSE place.k = "loc" /\ place.n = "GLO" /\ sub = <<>>
         ELSE Faces(T, n) \subseteq pf /\ ~(exclself /\ place.k = "loc" /\ place.n = n)

Overlaps(T, ls) == \E i, j \in 1..Len(ls) : i < j /\ Faces(T, ls[i]) \cap Faces(T, ls[j]) # {}

LocSize(T, l, rowfaces) == SizeOfFaces(T, IF l = "RoW" THEN rowfaces ELSE Faces(T, l))
OrderedBySize(T, q, rowfaces) == \A i, j \in 1..Len(q) : i < j => LocSize(T, q[i], rowfaces) >= LocSize(T, q[j], rowfaces)
=============================================================================
