------------------------------ MODULE MC_Runs ------------------------------
(* Design check for S02-S04: runs one after another in one process, each    *)
(* opening its directory and log, emitting events, and completing, failing  *)
(* or being interrupted at any point; other code may emit events between    *)
(* runs.  Design = "own": a run's log handler is attached for exactly the   *)
(* time of the run ("added": handlers are only ever added - shown to break  *)
(* OwnEvents).                                                              *)
EXTENDS Runs, Json, IOUtils, SequencesExt, TLC
CONSTANTS Design, Runners, MaxEvents
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
VARIABLES phase, cur, dir, log, emitted, attached
vars == <<phase, cur, dir, log, emitted, attached>>
Init == phase = "idle" /\ cur = 0 /\ dir = [r \in Runners |-> "none"] /\ log = [r \in Runners |-> <<>>]
        /\ emitted = [r \in Runners |-> <<>>] /\ attached = {}
Open == /\ phase = "idle" /\ \E r \in Runners : dir[r] = "none" /\ (\A q \in Runners : q < r => dir[q] # "none") /\ cur' = r /\ dir' = [dir EXCEPT ![r] = "open"]
        /\ phase' = "opened" /\ UNCHANGED <<log, emitted, attached>>
Attach == phase = "opened" /\ phase' = "running" /\ attached' = (IF Design = "own" THEN {cur} ELSE attached \cup {cur}) /\ UNCHANGED <<cur, dir, log, emitted>>
Write(e) == log' = [r \in Runners |-> IF r \in attached /\ dir[r] \in {"open", "kept"} THEN Append(log[r], e) ELSE log[r]]
Emit == phase = "running" /\ Len(emitted[cur]) < MaxEvents /\ LET e == <<cur, Len(emitted[cur]) + 1>> IN
        Write(e) /\ emitted' = [emitted EXCEPT ![cur] = Append(@, e)] /\ UNCHANGED <<phase, cur, dir, attached>>
Outside == phase = "idle" /\ (\A r \in Runners : Len(log[r]) < 2 * MaxEvents) /\ Write(<<0, 0>>) /\ UNCHANGED <<phase, cur, dir, emitted, attached>>
Detach == attached' = IF Design = "own" THEN {} ELSE attached
Complete == phase = "running" /\ phase' = "idle" /\ dir' = [dir EXCEPT ![cur] = "kept"] /\ Detach /\ UNCHANGED <<cur, log, emitted>>
Interrupt == phase # "idle" /\ phase' = "idle" /\ dir' = [dir EXCEPT ![cur] = "gone"] /\ Detach /\ UNCHANGED <<cur, log, emitted>>
Next == Open \/ Attach \/ Emit \/ Outside \/ Complete \/ Interrupt
OwnEvents == \A r \in Runners : dir[r] \in {"open", "kept"} => log[r] = emitted[r]
OthersStay == [][\A r \in Runners : r # cur' /\ dir[r] # "none" => dir'[r] = dir[r] /\ log'[r] = log[r]]_vars

(* Flattening is associative and Steps logs each transformation once.       *)
X(k, nm, e, tb) == [t |-> "f", k |-> k, name |-> nm, emit |-> e, table |-> tb, sel |-> "one", form |-> ""]
L(c) == [t |-> "list", c |-> c]
C(c) == [t |-> "coll", c |-> c]
Kinds == {"tag", "dup", "drop"} \cup (IF Deep THEN {"rev", "split", "sel"} ELSE {})
Leaf1(k) == X(k, "first", 1, TRUE)
Leaf2(k) == X(k, "second", 0, FALSE)
Leaf3(k) == X(k, "first", IF k = "tag" THEN 1 ELSE 0, FALSE)
Trees(a, b, c) == {L(<<a, b, c>>), L(<<L(<<a>>), C(<<b, c>>)>>), C(<<a, L(<<b, L(<<c>>)>>)>>), L(<<C(<<>>), L(<<L(<<a, b>>), c>>), L(<<>>)>>)}
Src == <<<<"a.spold", <<"one", "two">>>>, <<"b.spold", <<"three">>>>>>
Opts == {<<"none", "">>, <<"1", "a.spold">>, <<"1:9:2", "b.spold">>} \cup (IF Deep THEN {<<"2", ".spold">>, <<"0:1", "x">>} ELSE {})
Run(tree, o) == [config |-> tree, follow |-> o[2], cache |-> TRUE] @@ (IF o[1] = "none" THEN <<>> ELSE [save |-> o[1]])
S2 == {[src |-> Src, runs |-> <<Run(t, o)>>] : t \in UNION {Trees(Leaf1(a), Leaf2(b), Leaf3(c)) : a \in Kinds, b \in Kinds, c \in {"tag", "dup", "split"}}, o \in Opts}
Good(n) == L(<<X("tag", "good" \o n, 2, TRUE), X("dup", "more", 1, FALSE)>>)
Stopping(k, p) == LET s == X(k, "stop", 1, FALSE)  g == X("tag", "go", 1, TRUE) IN
    IF p = 1 THEN L(<<s, g>>) ELSE IF p = 2 THEN C(<<g, s, g>>) ELSE L(<<g, L(<<g, C(<<s>>)>>)>>)
S3 == {[src |-> Src, runs |-> <<Run(Stopping(k, p), o), Run(Good("1"), <<"1", "">>)>>] : k \in {"fail", "int", "kill"}, p \in 1..3, o \in Opts}
RunKinds == {"ok", "fail", "int"} \cup {"cut"}
After1(q, a) == IF a THEN q @@ [after |-> "between"] ELSE q
Made(k, n, a) == After1(CASE k = "ok" -> Run(Good(n), <<"1", "">>) [] k = "fail" -> Run(Stopping("fail", 2), <<"none", "">>) [] k = "int" -> Run(Stopping("int", 2), <<"none", "">>)
                          [] OTHER -> Run(Good(n), <<"none", "">>) @@ [int |-> 40], a)
S4 == {[src |-> Src, runs |-> <<Made(a, "1", x), Made(b, "2", y)>>] : a \in RunKinds, b \in RunKinds, x \in BOOLEAN, y \in BOOLEAN}
      \cup {[src |-> Src, runs |-> <<Made(a, "1", x), Made(b, "2", FALSE), Made(c, "3", TRUE)>>] : a \in RunKinds, b \in RunKinds, c \in RunKinds, x \in (IF Deep THEN BOOLEAN ELSE {FALSE})}
Space == IF Prop = "S02" THEN S2 ELSE IF Prop = "S03" THEN S3 ELSE S4
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))
Data0 == <<[n |-> "one", f |-> "a.spold", t |-> <<>>], [n |-> "two", f |-> "a.spold", t |-> <<>>]>>
ASSUME \A a \in Kinds, b \in Kinds : \A t \in Trees(Leaf1(a), Leaf2(b), Leaf3("tag")) :
    LET fs == Flat(t)  e == Events(fs, Data0) IN
    /\ fs = <<Leaf1(a), Leaf2(b), Leaf3("tag")>>
    /\ Cardinality({i \in 1..Len(e) : e[i].type = "function start"}) = 3
    /\ \A i \in 1..Len(e) : e[i].type = "function end" => e[i].count = Len(After(fs, Data0, e[i].index + 1))
=============================================================================
