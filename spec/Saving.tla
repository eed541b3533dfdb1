------------------------------- MODULE Saving -------------------------------
(* Which steps a saving strategy selects.  A strategy is a sequence of      *)
(* integers: <<>> none given, <<n>>, <<a, b>> (a:b), <<a, b, c>> (a:b:c).   *)
EXTENDS Integers, Sequences
DefaultInterval == 1000
Acceptable(q) == \/ q = <<>>
                 \/ Len(q) = 1 /\ q[1] >= 1
                 \/ Len(q) = 2
                 \/ Len(q) = 3 /\ q[3] >= 1
Selected(q, i) ==
    CASE q = <<>> -> i % DefaultInterval = 0
      [] Len(q) = 1 -> i % q[1] = 0
      [] Len(q) = 2 -> q[1] <= i /\ i <= q[2]
      [] OTHER -> q[1] <= i /\ i <= q[2] /\ (i - q[1]) % q[3] = 0
=============================================================================
