------------------------------ MODULE Cleanup -------------------------------
(* S06: entries of the output directory: [name, kind, t], kind \in          *)
(* {"dir", "file", "link"}; t the time it was created.                      *)
EXTENDS Integers, Sequences, FiniteSets
Doomed(entries, limit) == {e \in entries : e.kind = "dir" /\ e.t < limit}
Left(entries, limit) == entries \ Doomed(entries, limit)
=============================================================================
