--------------------------- MODULE MC_Extraction ----------------------------
(* Design check for S11: files are handed to several processes and their    *)
(* results collected by position; whatever the processes' speed, the result *)
(* is that of one process.  (Design = "arrival", collecting in order of     *)
(* arrival, does not have this property.)                                   *)
EXTENDS Extraction, Json, IOUtils, SequencesExt, TLC
CONSTANT Design
Deep == IOEnv.TIER = "thorough"
(* ---- scenarios: one exchange, one distribution, one dataset at a time ---*)
Groups == {<<"inputGroup", n>> : n \in {"1", "2", "3", "4", "5"}} \cup {<<"outputGroup", n>> : n \in {"0", "2", "3", "4", "5"}}
Ex == {[t |-> "exchange", group |-> g, link |-> l, sign |-> s, dstype |-> y, class |-> c] : g \in Groups, l \in BOOLEAN, s \in {-1, 0, 1}, y \in {"0", "1", "10"}, c \in {"", "allocatable product", "Waste", "Recyclable"}}
Kinds == {"lognormal", "normal", "triangular", "beta", "uniform", "undefined", "binomial", "gamma"}
Unc == {[t |-> "uncertainty", dist |-> k, ped |-> p, where |-> w, var |-> v, formula |-> f] : k \in Kinds, p \in BOOLEAN, w \in {"exchange", "volume", "property", "parameter"}, v \in BOOLEAN, f \in BOOLEAN}
Dss == {[t |-> "dataset", type |-> y, level |-> l, access |-> a, parent |-> p] : y \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"}, l \in {"", "0", "1", "2", "3", "4", "5"}, a \in {"0", "1", "2", "3"}, p \in BOOLEAN}
Space == Ex \cup Unc \cup (IF Deep THEN Dss ELSE {d \in Dss : d.access \in {"1", "3"} \/ d.level = "3"})
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

N == IF Deep THEN 6 ELSE 5
Workers == 1..3
Content == [i \in 1..N |-> IF i = 2 THEN <<>> ELSE IF i = 3 THEN <<<<i, 1>>, <<i, 2>>>> ELSE <<<<i, 1>>>>]
VARIABLES next, busy, done, out
vars == <<next, busy, done, out>>
Init == next = 1 /\ busy = [w \in Workers |-> 0] /\ done = [i \in 1..N |-> FALSE] /\ out = <<>>
Take(w) == busy[w] = 0 /\ next <= N /\ busy' = [busy EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<done, out>>
Finish(w) == busy[w] # 0 /\ done' = [done EXCEPT ![busy[w]] = TRUE] /\ out' = (IF Design = "arrival" THEN out \o Content[busy[w]] ELSE out) /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED next
RECURSIVE Flatten1(_)
Flatten1(i) == IF i > N THEN <<>> ELSE Content[i] \o Flatten1(i + 1)
Collect == Design = "position" /\ (\A i \in 1..N : done[i]) /\ out = <<>> /\ out' = Flatten1(1) /\ UNCHANGED <<next, busy, done>>
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ Collect
AsAlone == (\A i \in 1..N : done[i]) /\ out # <<>> => out = Flatten1(1)
EachOnce == \A v, w \in Workers : v # w /\ busy[v] # 0 => busy[v] # busy[w]
=============================================================================
