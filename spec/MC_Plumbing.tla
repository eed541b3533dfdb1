---------------------------- MODULE MC_Plumbing -----------------------------
(* Design checks for S05 (walking a, a+c, ... reaches exactly the selected  *)
(* steps), S06 (histories of runs and cleanups never lose a young run and   *)
(* leave no old one), S07 (list operations as built from the five abstract  *)
(* methods are the list operations).                                        *)
EXTENDS Saving, Cleanup, Composition, Json, IOUtils, SequencesExt, TLC
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
(* ---- S05 ----------------------------------------------------------------*)
Strategies == {<<>>} \cup {<<n>> : n \in -2..9} \cup {<<a, b>> : a \in -2..7, b \in -2..9} \cup {<<a, b, c>> : a \in -2..5, b \in -1..9, c \in -2..(IF Deep THEN 8 ELSE 5)}
                  \cup {<<1000>>, <<999, 1001>>, <<0, 3000, 1000>>, <<5, 5, 1>>, <<5, 4, 1>>, <<0, 100000000>>, <<7, 2000000000, 3>>, <<2000000000>>}
Horizon == 0..24
(* ---- S06 ----------------------------------------------------------------*)
Ages == {"old", "at", "new"}
EntryKinds == {"dir", "nested", "file", "link", "filelink"}
Worlds == {<<e1, e2>> : e1 \in EntryKinds \X Ages, e2 \in EntryKinds \X Ages} \cup
          (IF Deep THEN {<<e1, e2, e3>> : e1 \in EntryKinds \X Ages, e2 \in {"dir", "link"} \X Ages, e3 \in {"dir", "nested"} \X Ages} ELSE {})
(* ---- S07 ----------------------------------------------------------------*)
O(op, i, j, x, xs) == [op |-> op, i |-> i, j |-> j, x |-> x, xs |-> xs]
Ops == {O(op, i, 0, 9, <<>>) : op \in {"insert", "set", "get", "del", "pop"}, i \in -4..4} \cup {O(op, 0, 0, x, <<>>) : op \in {"remove", "index", "count", "in"}, x \in {1, 2, 8}}
       \cup {O(op, 0, 0, 7, xs) : op \in {"extend", "iadd"}, xs \in {<<>>, <<7, 1>>}} \cup {O(op, 0, 0, 6, <<>>) : op \in {"append", "reverse", "clear", "iter", "reversed", "len", "call", "unwrap"}}
       \cup {O(op, i, j, 0, xs) : op \in {"cut", "delcut"}, i \in {-4, -1, 0, 1, 3}, j \in {-3, -1, 0, 2, 9}, xs \in {<<>>}} \cup {O("setcut", i, j, 0, xs) : i \in {-1, 0, 2}, j \in {1, 3}, xs \in {<<>>, <<7, 8>>}}
N(x) == [t |-> "f", x |-> x]
T(k, c) == [t |-> k, c |-> c]
Trees == {T("list", <<N(1), N(2), N(3)>>), T("list", <<T("coll", <<N(1), T("list", <<N(2)>>)>>), T("tuple", <<>>), N(1)>>), T("list", <<>>)}
PairSeqs == IF Deep THEN {[tree |-> t, ops |-> <<a, b>>] : t \in Trees, a \in Ops, b \in Ops} ELSE {[tree |-> t, ops |-> <<a, b>>] : t \in Trees, a \in {o \in Ops : o.op \in {"insert", "append", "reverse", "extend", "remove", "pop", "delcut", "setcut"}}, b \in {o \in Ops : o.op \in {"get", "del", "iter", "call", "pop", "index"} /\ o.i \in {-1, 0, 1}}} \cup {[tree |-> t, ops |-> <<a>>] : t \in Trees, a \in Ops}
Space == IF Prop = "S05" THEN Strategies ELSE IF Prop = "S06" THEN {[world |-> w] : w \in Worlds} ELSE PairSeqs
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES a, b, c
vars == <<a, b, c>>
(* S05: a strategy, b walked steps, c position; S06: a entries, b clock, c deleted; S07: a list, b operation, c result of the derived form *)
Week == 3
Init == CASE Prop = "S05" -> a \in {q \in Strategies : Len(q) = 3 /\ Acceptable(q) /\ q[2] < 100} /\ b = {} /\ c = a[1]
          [] Prop = "S06" -> a = {} /\ b = 0 /\ c = {}
          [] OTHER -> a \in UNION {[1..n -> 1..3] : n \in 0..4} /\ b = O("len", 0, 0, 0, <<>>) /\ c = R(a, "ok", <<Len(a)>>)
Walk == Prop = "S05" /\ c <= a[2] /\ b' = b \cup {c} /\ c' = c + a[3] /\ a' = a
NewRun == Prop = "S06" /\ b < 6 /\ Cardinality(a) < 4 /\ \E k \in {"dir", "file", "link"} : a' = a \cup {[name |-> Cardinality(a) + Cardinality(c), kind |-> k, t |-> b]} /\ UNCHANGED <<b, c>>
Later == Prop = "S06" /\ b < 6 /\ b' = b + 1 /\ UNCHANGED <<a, c>>
Clean == Prop = "S06" /\ Cardinality(c) < 4 /\ a' = Left(a, b - Week) /\ c' = c \cup {[e |-> e, at |-> b] : e \in Doomed(a, b - Week)} /\ b' = b
(* The mixin forms: everything from get, set, del, insert, len.             *)
Get(L, i) == L[Pos(i, Len(L))]
Del(L, i) == SubSeq(L, 1, Pos(i, Len(L)) - 1) \o SubSeq(L, Pos(i, Len(L)) + 1, Len(L))
Ins(L, i, x) == SubSeq(L, 1, Clamp(i, Len(L))) \o <<x>> \o SubSeq(L, Clamp(i, Len(L)) + 1, Len(L))
RECURSIVE AppendAll(_, _), Scan(_, _, _)
AppendAll(L, xs) == IF xs = <<>> THEN L ELSE AppendAll(Ins(L, Len(L), Head(xs)), Tail(xs))
Scan(L, x, k) == IF k >= Len(L) THEN -1 ELSE IF Get(L, k) = x THEN k ELSE Scan(L, x, k + 1)
RECURSIVE Swap(_, _)
Swap(L, k) == IF k >= Len(L) \div 2 THEN L ELSE Swap([L EXCEPT ![k + 1] = L[Len(L) - k], ![Len(L) - k] = L[k + 1]], k + 1)
Derived(L, o) ==
    CASE o.op = "append" -> R(Ins(L, Len(L), o.x), "ok", <<>>)
      [] o.op \in {"extend", "iadd"} -> R(AppendAll(L, o.xs), "ok", <<>>)
      [] o.op = "pop" -> IF Valid(o.i, Len(L)) THEN R(Del(L, o.i), "ok", <<Get(L, o.i)>>) ELSE R(L, "IndexError", <<>>)
      [] o.op = "remove" -> IF Scan(L, o.x, 0) >= 0 THEN R(Del(L, Scan(L, o.x, 0)), "ok", <<>>) ELSE R(L, "ValueError", <<>>)
      [] o.op = "index" -> IF Scan(L, o.x, 0) >= 0 THEN R(L, "ok", <<Scan(L, o.x, 0)>>) ELSE R(L, "ValueError", <<>>)
      [] o.op = "reverse" -> R(Swap(L, 0), "ok", <<>>)
      [] o.op = "insert" -> R(Ins(L, o.i, o.x), "ok", <<>>)
      [] OTHER -> Do(L, o)
Operate == Prop = "S07" /\ b.x = 0 /\ b.op = "len" /\ \E o \in Ops : b' = o /\ c' = Derived(a, o) /\ a' = Do(a, o).list
Next == Walk \/ NewRun \/ Later \/ Clean \/ Operate
Walked == Prop = "S05" /\ c > a[2] => b = {i \in -2..9 : Selected(a, i)}
YoungKept == Prop = "S06" => \A d \in c : d.e.kind = "dir" /\ d.at - d.e.t > Week
SameList == Prop = "S07" => a = c.list
SameAnswer == [][Prop = "S07" => c' = Do(a, b')]_vars
OldGone == [][Prop = "S06" /\ c' # c => \A e \in a' : e.kind # "dir" \/ b - e.t <= Week]_vars
=============================================================================
