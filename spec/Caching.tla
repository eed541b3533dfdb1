------------------------------ MODULE Caching ------------------------------
(* S01: sources, their cache, extraction.  Dir: 1, 2 real directories; 3 a  *)
(* symbolic link to one of them.  Contents of a directory: a set of         *)
(* <<file, version>>, one version for each file; "l" is a file name that is *)
(* not a dataset file.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Of(C, f) == {p \in C : p[1] = f}
Has(C, f) == Of(C, f) # {}
Put(C, f, v) == (C \ Of(C, f)) \cup {<<f, v>>}
Drop(C, f) == C \ Of(C, f)
Move(C, f, g) == IF Has(C, f) THEN {<<g, p[2]>> : p \in Of(C, f)} \cup (Drop(C, f) \ Of(C, g)) ELSE C
Datasets(C) == {p \in C : p[1] # "l"}

(* The effect of a source change on the contents.                          *)
Changed(C, op, f, g, v) ==
    CASE op \in {"edit", "keep", "past", "add"} -> IF v = 0 THEN C ELSE Put(C, f, v)
      [] op = "rm" -> Drop(C, f)
      [] op = "ren" -> Move(C, f, g)
      [] OTHER -> C

(* The whole world: [src |-> <<C1, C2>>, target |-> 1 or 2].                *)
World(W, op, d, f, g, v) ==
    CASE op = "swap" -> [W EXCEPT !.src = <<W.src[2], W.src[1]>>]
      [] op = "relink" -> [W EXCEPT !.target = 3 - W.target]
      [] d \in {1, 2} -> [W EXCEPT !.src[d] = Changed(W.src[d], op, f, g, v)]
      [] OTHER -> W
Contents(W, d) == IF d = 3 THEN W.src[W.target] ELSE W.src[d]
=============================================================================
