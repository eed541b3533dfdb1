---------------------------- MODULE MC_Pipeline ----------------------------
(* Whole runs of both system models over small worlds, step by step: the   *)
(* sources, their activities, Rest-of-World labels, suppliers, volumes,    *)
(* shares, groups, consumers, final names and signs.  What Pipeline says   *)
(* about the final database must hold for every run of the steps, and the  *)
(* laws below must hold on the way.                                        *)
EXTENDS Pipeline, LinkSteps, Json, IOUtils
B == INSTANCE Brightway
Deep == IOEnv.TIER = "thorough"
Model == IF IOEnv.PROP \in {"E02", "E03"} THEN "con" ELSE "cut"
Cut == Model = "cut"
World == [w |-> <<1, 15, 1257, 531, 533, 134, 4688>>,
          loc |-> [GLO |-> <<1, 2, 3, 4, 5, 6, 7>>, RER |-> <<1, 2, 3>>, CH |-> <<1>>, FR |-> <<2>>, RNA |-> <<4, 5, 6>>, US |-> <<4>>, CA |-> <<5>>]]
PV(a) == [EmptyPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, cls, amt, pv) ==
    [id |-> id, name |-> name, type |-> type, cls |-> cls, amt |-> amt, unit |-> "kg", link |-> "", code |-> "", cond |-> FALSE,
     f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> "", price |-> NaR, tv |-> NaR, cq |-> FALSE, fv |-> NaR]
In(id, name, a) == E(id, name, TI, "none", a, EmptyPV)
Out(id, name, a, v) == E(id, name, RP, ALLOC, a, PV(v))
D(id, name, type, loc, excs) == [id |-> id, name |-> name, type |-> type, loc |-> (IF loc = "RoW" THEN "GLO" ELSE loc), parent |-> "", code |-> "", refp |-> "",
    tech |-> "current", hassup |-> FALSE, sup |-> <<>>, excs |-> excs, params |-> <<>>, attrs |-> "", isrc |-> FALSE, elems |-> <<>>, lkey |-> ""]
Priced(e, p) == [e EXCEPT !.price = RInt(p)]

(* ---- worlds ------------------------------------------------------------*)
Kinds == IF Cut THEN {"single", "economic", "emits", "takes", "scrap"} ELSE {"single", "byproduct", "emits", "turned"}
MarketSets == {<<"GLO">>, <<"RER", "RoW">>, <<"CH", "US">>} \cup (IF Deep THEN {<<"CH", "FR", "RoW">>, <<"RNA", "RER">>} ELSE {})
ProducerSets == {<<"GLO">>, <<"CH", "RoW">>} \cup (IF Deep THEN {<<"US", "CA", "RoW">>} ELSE {})
GroupSets == {<<>>, <<"GLO">>} \cup (IF Deep THEN {<<"RER", "GLO">>} ELSE {})
Extras == {"", "link", "waste"} \cup (IF Cut THEN {"scrap"} ELSE {})
Vols == {<<5, 20, 2>>, <<0, 7, 0>>}
Techs == IF Cut THEN {<<"current", "current", "current">>} ELSE {<<"current", "current", "old">>, <<"old", "new", "current">>}
Treats == {"treat", "recover"}
Waste(id, a) == E(id, "w", BP, "waste", a, PV(1))
Producer(kind, l, v, tech) ==
    LET i == "p" \o l
        main == Out(i \o "x", "x", RInt(2), v)
        more == CASE kind = "economic" -> <<[Priced(E(i \o "z", "z", BP, ALLOC, ROne, PV(3)), 2) EXCEPT !.id = i \o "z"]>>
                  [] kind = "byproduct" -> <<E(i \o "z", "z", BP, ALLOC, ROne, PV(0))>>
                  [] kind = "emits" -> <<Waste(i \o "w", <<1, 2>>)>>
                  [] kind = "takes" -> <<Waste(i \o "w", <<-1, 2>>)>>
                  [] kind = "scrap" -> <<E(i \o "s", "scrap", BP, "recyclable", ROne, PV(1))>>
                  [] OTHER -> <<>>
    IN [D(i, "making x", TA, l, <<IF kind = "economic" THEN Priced(main, 3) ELSE main>> \o more \o <<In(i \o "q", "q", RInt(4))>>) EXCEPT !.tech = tech]
Market(p, l, cls, sgn) == D("m" \o p \o l, "market for " \o p, MA, l, <<E("m" \o p \o l, p, RP, cls, RInt(sgn), PV(1))>>)
Treat(kind, v) == D("t", "treating w", TA, "GLO", <<E("tw", "w", RP, "waste", RInt(-2), PV(v))>> \o
    (IF kind = "recover" THEN <<[E("tx", "x", BP, ALLOC, ROne, PV(0)) EXCEPT !.price = ROne]>> ELSE <<>>) \o <<In("tq", "q", RInt(1))>>)
Using(l, extra, pl) == D("c" \o l, "making y", TA, l, <<Out("cy" \o l, "y", RInt(2), 7), In("cx" \o l, "x", RInt(3))>> \o
    (CASE extra = "link" -> <<[In("cl" \o l, "x", RInt(2)) EXCEPT !.link = "p" \o pl]>>
       [] extra = "waste" -> <<In("cw" \o l, "w", RInt(-1))>>
       [] extra = "scrap" -> <<In("cs" \o l, "scrap" \o S!RCS, ROne)>>
       [] OTHER -> <<>>))
(* a market whose by-product b turns the activity "using b" around *)
Turned == <<D("o", "using b", TA, "GLO", <<Out("ou", "u", ROne, 4), In("ob", "b", RInt(2))>>),
            D("mu", "market for u", MA, "GLO", <<E("mu", "u", RP, ALLOC, ROne, PV(1)),
               [E("mub", "b", BP, ALLOC, RInt(-1), PV(1)) EXCEPT !.link = "o", !.cond = TRUE]>>)>>
Build(k, ms, ps, gs, cs, extra, v, tk, te) ==
    [i \in 1..Len(ms) |-> Market("x", ms[i], ALLOC, 1)] \o [i \in 1..Len(ps) |-> Producer(k, ps[i], v[i], te[i])] \o
    [i \in 1..Len(gs) |-> D("g" \o gs[i], "market group for x", MG, gs[i], <<Out("g" \o gs[i], "x", ROne, 0)>>)] \o
    <<Using(cs, extra, ps[1]), Market("q", "GLO", ALLOC, 1), D("q", "making q", TA, "GLO", <<Out("q", "q", ROne, 9)>>)>> \o
    (IF k \in {"economic", "byproduct"} THEN <<Market("z", "GLO", ALLOC, 1), D("z", "making z", TA, "RER", <<Out("z", "z", ROne, 2)>>)>> ELSE <<>>) \o
    (IF k \in {"emits", "takes"} \/ extra = "waste" THEN <<Market("w", "GLO", "waste", -1), Treat(tk, v[3])>> ELSE <<>>) \o
    (IF k = "turned" THEN Turned ELSE <<>>)
Low(acts) == [n \in {acts[i].name : i \in 1..Len(acts)} \cup {acts[i].refp : i \in 1..Len(acts)} |-> n]
Accepts(s) == LET a == Acts(Model, s, <<>>) IN Sourced(Model, s) /\ Linkable(Model, World, a, Low(a))
Built == {Build(k, ms, ps, gs, cs, extra, v, tk, te) : k \in Kinds, ms \in MarketSets, ps \in ProducerSets, gs \in GroupSets,
            cs \in {"CH", "US", "GLO"}, extra \in Extras, v \in Vols, tk \in Treats, te \in Techs}
Space == {s \in Built : Accepts(s)}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

(* ---- the run -----------------------------------------------------------*)
WithCodes(x) == [i \in 1..Len(x) |-> [x[i] EXCEPT !.code = @ \o x[i].id \o " | " \o x[i].name \o " | " \o x[i].refp]]
Prune(x) == [i \in 1..Len(x) |-> IF S!NeedsPruning(x[i]) THEN [x[i] EXCEPT !.sup = S!Pruned(@)] ELSE x[i]]
GroupsByPlace(x) == [i \in 1..Len(x) |-> IF x[i].type = MG THEN WithSup(x[i], x, Inside(World, x, i, GroupsOf(x, x[i].refp), MarketsOf(x, x[i].refp))) ELSE x[i]]
GroupVolumesSum(x) == [i \in 1..Len(x) |-> IF x[i].type = MG THEN SetPV(x[i], MarketPV(x[i])) ELSE x[i]]
ToRecycled(x) == [i \in 1..Len(x) |-> [x[i] EXCEPT !.excs = [k \in 1..Len(@) |->
    LET e == x[i].excs[k]  t == RCTargets(x, e.name) IN IF Unlinked(e) /\ Cardinality(t) = 1 THEN [e EXCEPT !.code = x[CHOOSE j \in t : TRUE].code] ELSE e]]]
OwnCodes(x) == [i \in 1..Len(x) |-> [x[i] EXCEPT !.excs = [k \in 1..Len(@) |-> IF IsRP(x[i].excs[k]) THEN [x[i].excs[k] EXCEPT !.code = x[i].code] ELSE x[i].excs[k]]]]
Same(x) == x

VARIABLES db, src, phase
vars == <<db, src, phase>>
Init == src \in Space /\ db = src /\ phase = "raw"
Step(from, to, f(_)) == phase = from /\ phase' = to /\ db' = f(db) /\ UNCHANGED src
Next == \/ Step("raw", "acts", LAMBDA x : WithCodes(Acts(Model, x, <<>>)))
        \/ Step("acts", "row", Relabel)
        \/ Step("row", "hard", Actualize)
        \/ Step("hard", "sup", LAMBDA x : IF Cut THEN Suppliers1(World, x) ELSE Prune(Suppliers1(World, x)))
        \/ Step("sup", "vol", Volumes)
        \/ Step("vol", "purge", LAMBDA x : IF Cut THEN Purge(Purge(x, MA), TA) ELSE x)
        \/ Step("purge", "alloc", LAMBDA x : Alloc(x, MA))
        \/ Step("alloc", "groups", LAMBDA x : IF Cut THEN Groups(World, x) ELSE GroupsByPlace(x))
        \/ Step("groups", "gvol", LAMBDA x : IF Cut THEN GroupVolumes(x) ELSE GroupVolumesSum(x))
        \/ Step("gvol", "galloc", LAMBDA x : Alloc(x, MG))
        \/ Step("galloc", "recycled", ToRecycled)
        \/ Step("recycled", "linked", LAMBDA x : Consumers(World, x))
        \/ Step("linked", "named", LAMBDA x : IF Cut THEN S!StripNames(OwnCodes(DropUnlinked(x))) ELSE OwnCodes(DropUnlinked(x)))
        \/ Step("named", "done", Same)
        \/ (phase = "done" /\ UNCHANGED vars)

(* ---- what must hold ----------------------------------------------------*)
Correct == phase = "done" => Final(Model, World, src, db) = {}
(* nothing an activity of the source takes in is lost or doubled by making *)
(* several activities of it (products weighted by how much was made)       *)
FromSource(x, i) == {j \in 1..Len(x) : x[j].id = src[i].id /\ ~x[j].isrc}
Made(s, n) == RAbs(RSumOver(Sel(s.excs, LAMBDA e : IsProd(e) /\ e.name = n), LAMBDA e : e.amt))
Taken(d, n) == RSumOver(Sel(d.excs, LAMBDA e : e.type = TI /\ e.name = n), LAMBDA e : e.amt)
Burdens == phase = "acts" => \A i \in 1..Len(src) : LET s == src[i] IN s.type = TA /\ s.id # "o" =>
    RSumSet(FromSource(db, i), LAMBDA j : RMul(Taken(db[j], "q"), Made(s, db[j].refp))) = Taken(s, "q")
Shares == phase \in {"named", "done"} => \A i \in 1..Len(db) : db[i].type \in {MA, MG} =>
    LET q == Sel(db[i].excs, LAMBDA e : e.type = TI /\ e.id = "") IN q # <<>> => RSumOver(q, LAMBDA e : e.amt) = TheRP(db[i]).amt
(* a producer's output reaches one market, or none *)
OneMarket == phase = "done" => \A j \in Typed(db, TA) : Cardinality({i \in Typed(db, MA) : \E k \in 1..Len(db[i].excs) :
    db[i].excs[k].id = "" /\ db[i].excs[k].code = db[j].code}) <= 1
Everything == phase = "done" /\ Cut => \A i \in 1..Len(src) : src[i].loc # "GLO" => FromSource(db, i) # {}
BestFirst == phase = "done" /\ ~Cut => \A i \in Typed(db, MA) : \A k \in 1..Len(db[i].excs) : LET e == db[i].excs[k] IN
    e.id = "" /\ e.type = TI => LET d == db[CHOOSE j \in 1..Len(db) : db[j].code = e.code] IN
    ~\E j \in 1..Len(src) : src[j].type = TA /\ src[j].name = d.name /\ src[j].tech = "new" /\ d.tech # "new" /\ Cardinality(Typed(src, MA)) = 1
Whole == phase = "done" => Closed(db)
(* the result, given to Brightway: named activities that make themselves   *)
(* and take in what activities make, by-products aside                     *)
Lin == [i \in 1..Len(db) |-> [code |-> db[i].code, ex |-> [k \in 1..Len(db[i].excs) |-> LET e == db[i].excs[k] IN
    [type |-> e.type, name |-> e.name, unit |-> e.unit, amount |-> e.amt, code |-> e.code, comp |-> "", sub |-> ""]]]]
Exports == phase = "done" => B!Keyed(Lin) /\ \A i \in 1..Len(Lin) : LET fs == B!Flows(Lin[i].ex, "db", 1) IN
    B!Holds(Lin[i]) \/ (B!MakesItself(Lin[i].code, "db", fs) /\ B!Targets(Lin, Lin[i]))
=============================================================================
