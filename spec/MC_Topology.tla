---------------------------- MODULE MC_Topology ----------------------------
(* A memoizing topology answering queries in any order: answers equal the  *)
(* definition whatever was asked (and evicted) before; laws of the algebra.*)
EXTENDS Topology, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
(* a small world with real names: Switzerland and France in Europe, USA    *)
(* and Canada in North America, the rest                                   *)
World == [w |-> <<1, 15, 1257, 531, 533, 134, 4688>>,
          loc |-> [GLO |-> <<1, 2, 3, 4, 5, 6, 7>>, RER |-> <<1, 2, 3>>, CH |-> <<1>>, FR |-> <<2>>, RNA |-> <<4, 5, 6>>, US |-> <<4>>, CA |-> <<5>>]]
Names == DOMAIN World.loc
Rows == {{}, {"CH"}, {"RER"}, {"RER", "RNA"}, {"GLO"}, {"CH", "US"}}
RowSet(ls) == SetToSeq(ResolveRow(World, ls))
Loc(n) == [k |-> "loc", n |-> n]
Places == {Loc(n) : n \in Names \cup {"RoW"}} \cup {[k |-> "set", s |-> RowSet(r), of |-> r] : r \in Rows \ {{}}}
Subs == {<<>>, <<"CH">>, <<"US", "CH">>, <<"RNA">>, <<"RoW">>} \cup (IF Deep THEN {<<"RER">>, <<"FR", "CA">>, <<"GLO">>} ELSE {})
RowArgs == {[has |-> FALSE, s |-> <<>>, of |-> {}]} \cup {[has |-> TRUE, s |-> RowSet(r), of |-> r] : r \in {{"CH"}, {"RER", "RNA"}, {"GLO"}}}
Queries == [parent : Places, child : Places, sub : Subs, row : RowArgs]
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Queries))

VARIABLES q, ans, cache
Answer(x) == LocContains(World, x.parent, x.child, x.sub, x.row)
Init == q \in Queries /\ ans = Answer(q) /\ cache = {<<q, ans>>}
Keys == {x[1] : x \in cache}
Near(a, b) == Cardinality({f \in {"parent", "child", "sub", "row"} : a[f] # b[f]}) = 1
(* a second query that differs in one argument, with or without eviction *)
Ask == /\ Cardinality(cache) = 1 /\ q.sub \in {<<>>, <<"CH">>} /\ q.parent \in {Loc("GLO"), Loc("RER"), Loc("RoW")}
       /\ \E x \in Queries : Near(x, q) /\ q' = x /\ ans' = Answer(x)
       /\ cache' \in {cache \cup {<<q', ans'>>}, {<<q', ans'>>}}
Next == Ask \/ UNCHANGED <<q, ans, cache>>

Consistent == \A x \in cache : x[2] = Answer(x[1])
Fn(p) == PlaceFaces(World, p, [has |-> FALSE, s |-> <<>>])
Plain == q.sub = <<>> /\ ~q.row.has
Reflexive == Plain /\ q.parent = q.child /\ Fn(q.parent) # {} => ans
Inclusion == ans /\ ~(q.child.k = "loc" /\ q.child.n = "RoW") => Fn(q.child) # {} /\ (~(q.parent.k = "loc" /\ q.parent.n = "RoW") => Fn(q.child) \subseteq Fn(q.parent))
Monotone == ans => LocContains(World, q.parent, q.child, <<>>, q.row)
Agrees == q.child.k = "loc" /\ ~(q.child.n = "RoW") =>
    (InContained(World, q.child.n, q.parent, FALSE, q.sub, q.row) = ans)
RowPartition == \A r \in Rows : ResolveRow(World, r) \cap Covered(World, r) = {} /\ ResolveRow(World, r) \cup Covered(World, r) = Globe(World)
=============================================================================
