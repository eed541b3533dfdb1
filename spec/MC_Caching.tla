---------------------------- MODULE MC_Caching -----------------------------
(* Design check for S01: one directory, its cache file and an extraction    *)
(* that reads file by file, while the source changes and the process may    *)
(* die at any point.  Every change of a file or of the directory gets a new *)
(* value of the change clock; the modification stamp may be set back.       *)
(* Design = "safe": the cache holds the directory state seen before the     *)
(* extraction began, is compared for equality, and is put in place          *)
(* atomically.  The other designs (stamp: the cache is fresh if younger     *)
(* than all modification stamps; torn: written in place) break the          *)
(* invariants; the constant is there to keep the argument checkable.        *)
EXTENDS Caching, Json, IOUtils, SequencesExt, TLC
CONSTANTS Design, MaxClock
Deep == IOEnv.TIER = "thorough"
Names == {"a", "b"}
NoCache == [ok |-> TRUE, data |-> {}, state |-> {<<"none">>}, m |-> -1]
VARIABLES src,      \* contents: set of <<file, version>>
          stamp,    \* [file |-> <<mtime, ctime>>], directory: "." 
          clock, cache, pc, seen, todo, got, result
vars == <<src, stamp, clock, cache, pc, seen, todo, got, result>>
Files == {p[1] : p \in src}
State == {<<f, stamp[f]>> : f \in Files \cup {"."}}
Youngest == LET S == {stamp[f][1] : f \in Files \cup {"."}} IN CHOOSE x \in S : \A y \in S : x >= y
Fresh == IF Design = "stamp" THEN cache.m > Youngest ELSE cache.state = State
Init == /\ src = {<<"a", 0>>} /\ stamp = [f \in Names \cup {"."} |-> <<0, 0>>] /\ clock = 1
        /\ cache = NoCache /\ pc = "idle" /\ seen = {} /\ todo = {} /\ got = {} /\ result = <<>>
Tick == clock < MaxClock /\ clock' = clock + 1
Same == UNCHANGED <<cache, pc, seen, todo, got, result>>
Edit(f) == Tick /\ f \in Files /\ src' = Put(src, f, clock) /\ stamp' = [stamp EXCEPT ![f] = <<clock, clock>>] /\ Same
Keep(f) == Tick /\ f \in Files /\ src' = Put(src, f, clock) /\ stamp' = [stamp EXCEPT ![f] = <<@[1], clock>>] /\ Same
Past(f) == Tick /\ f \in Files /\ src' = Put(src, f, clock) /\ stamp' = [stamp EXCEPT ![f] = <<0, clock>>, !["."] = <<clock, clock>>] /\ Same
Add(f) == Tick /\ f \notin Files /\ src' = Put(src, f, clock) /\ stamp' = [stamp EXCEPT ![f] = <<clock, clock>>, !["."] = <<clock, clock>>] /\ Same
Delete(f) == Tick /\ f \in Files /\ src' = Drop(src, f) /\ stamp' = [stamp EXCEPT !["."] = <<clock, clock>>] /\ Same
Begin == /\ pc = "idle" /\ result' = <<>>
         /\ IF Fresh
            THEN /\ result' = (IF cache.ok THEN <<"cached", cache.data>> ELSE <<"torn">>)
                 /\ UNCHANGED <<src, stamp, clock, cache, pc, seen, todo, got>>
            ELSE /\ pc' = "read" /\ seen' = State /\ todo' = Files /\ got' = {}
                 /\ UNCHANGED <<src, stamp, clock, cache>>
Read(f) == /\ pc = "read" /\ f \in todo /\ todo' = todo \ {f} /\ got' = got \cup Of(src, f)
           /\ UNCHANGED <<src, stamp, clock, cache, pc, seen, result>>
Write == /\ pc = "read" /\ todo = {} /\ clock < MaxClock /\ clock' = clock + 1
         /\ IF Design = "torn" THEN pc' = "half" /\ cache' = [ok |-> FALSE, data |-> got, state |-> seen, m |-> clock]
            ELSE pc' = "temp" /\ cache' = cache
         /\ UNCHANGED <<src, stamp, seen, todo, got, result>>
Commit == /\ pc \in {"half", "temp"} /\ pc' = "idle" /\ cache' = [ok |-> TRUE, data |-> got, state |-> seen, m |-> clock]
          /\ UNCHANGED <<src, stamp, clock, seen, todo, got, result>>
Die == pc # "idle" /\ pc' = "idle" /\ seen' = {} /\ todo' = {} /\ got' = {} /\ UNCHANGED <<src, stamp, clock, cache, result>>
Next == Begin \/ Write \/ Commit \/ Die \/ (\E f \in Names : Edit(f) \/ Keep(f) \/ Past(f) \/ Add(f) \/ Delete(f) \/ Read(f))
NeverStale == pc = "idle" /\ Fresh => cache.ok /\ cache.data = src

(* ---- scenarios: all short histories -------------------------------------*)
O(op, d, f) == [op |-> op, d |-> d, f |-> f, g |-> "", k |-> 0]
G(op, d, f, g) == [op |-> op, d |-> d, f |-> f, g |-> g, k |-> 0]
K(op, d, k) == [op |-> op, d |-> d, f |-> "", g |-> "", k |-> k]
Alphabet == {O("x", 1, ""), O("x", 3, ""), O("xrel", 1, ""), O("xf", 1, ""), O("edit", 1, "a"), O("keep", 1, "b"), O("past", 1, "a"), G("past", 1, "b", "k"),
             O("add", 1, "c"), O("add", 1, "d"), O("rm", 1, "b"), G("ren", 1, "a", "l"), G("ren", 1, "a", "b"), G("ren", 1, "b", "c"), O("swap", 0, ""), O("relink", 0, ""), K("crash", 1, 200), K("full", 1, 1)}
           \cup {K("die", 1, k) : k \in {1, 3, 5, 7}}
           \cup {[op |-> "mid", d |-> 1, f |-> "", g |-> "", k |-> k, inner |-> [op |-> o, f |-> "a", g |-> ""]] : k \in {2, 3}, o \in {"edit", "past"}}
Alphabet3 == {O("x", 1, ""), O("x", 3, ""), O("edit", 1, "a"), O("past", 1, "a"), O("add", 1, "c"), O("rm", 1, "b"), G("ren", 1, "a", "l"), O("swap", 0, ""), O("relink", 0, ""), K("crash", 1, 200), K("die", 1, 5)}
Hist(b) == [init |-> <<<<"a", "b">>, <<"a">>>>, ops |-> <<O("x", 1, "")>> \o b \o <<O("x", 1, ""), O("x", 3, ""), O("x", 2, "")>>]
Cold(b) == [init |-> <<<<"a">>, <<>>>>, ops |-> b \o <<O("x", 1, ""), O("x", 2, "")>>]
Scenarios == {Hist(<<p, q>>) : p \in Alphabet, q \in Alphabet} \cup {Cold(<<p>>) : p \in Alphabet} \cup {Cold(<<p, q>>) : p \in {o \in Alphabet : o.op \in {"crash", "die", "full", "mid"}}, q \in Alphabet}
               \cup (IF Deep THEN {Hist(<<p, q, r>>) : p \in Alphabet3, q \in Alphabet3, r \in Alphabet3} ELSE {})
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Scenarios))
=============================================================================
