----------------------------- MODULE MC_Linking -----------------------------
(* The linking pipeline as a state machine over a small world: Rest-of-    *)
(* World labels, suppliers of markets, volumes, shares, market groups,     *)
(* consumers.  Each action is the specified transformation; invariants are *)
(* the laws the properties state.                                          *)
EXTENDS LinkSteps, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
World == [w |-> <<1, 15, 1257, 531, 533, 134, 4688>>,
          loc |-> [GLO |-> <<1, 2, 3, 4, 5, 6, 7>>, RER |-> <<1, 2, 3>>, CH |-> <<1>>, FR |-> <<2>>, RNA |-> <<4, 5, 6>>, US |-> <<4>>, CA |-> <<5>>]]
NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, amt, pv) ==
    [id |-> id, name |-> name, type |-> type, cls |-> (IF type = RP THEN ALLOC ELSE "none"), amt |-> RInt(amt), unit |-> "kg", link |-> "", code |-> "", cond |-> FALSE,
     f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> ""]
D(id, name, type, loc, refp, excs) == [id |-> id, name |-> name, type |-> type, loc |-> loc, parent |-> "", code |-> id, refp |-> refp,
    tech |-> "", hassup |-> FALSE, sup |-> <<>>, excs |-> excs, params |-> <<>>, attrs |-> ""]
Label(q) == [i \in 1..Len(q) |-> IF q[i] = "RoW" THEN "GLO" ELSE q[i]]   \* before relabelling
MarketSets == {<<"GLO">>, <<"RER", "RoW">>, <<"CH", "FR", "RoW">>, <<"RER", "RNA", "RoW">>, <<"CH", "US">>} \cup
    (IF Deep THEN {<<"CH", "RNA", "RoW">>, <<"RNA">>, <<"FR", "CA", "CH", "RoW">>} ELSE {})
ProducerSets == {<<"GLO">>, <<"CH", "RoW">>, <<"CH", "US", "RoW">>, <<"RER">>} \cup (IF Deep THEN {<<"US", "CA">>, <<"FR", "CH", "RNA", "RoW">>} ELSE {})
GroupSets == {<<>>, <<"GLO">>, <<"RER">>, <<"RER", "GLO">>, <<"RNA", "RER", "GLO">>}
ConsumerSets == {<<"CH">>, <<"RER", "RoW">>, <<"US", "GLO">>, <<"CA">>, <<"GLO">>} \ (IF Deep THEN {} ELSE {<<"CA">>})
(* volumes of producers: zero / different / equal *)
Vols == {<<0, 0, 0, 0>>, <<5, 0, 20, 9>>, <<3, 4, 10, 8>>}
Subtracted == {0, 4}
HardLinks == IF Deep THEN {"", "p", "m"} ELSE {"", "p"}
Build(ms, ps, gs, cs, v, sub, hl) ==
    [i \in 1..Len(ms) |-> D("m" \o ms[i], "market for x", MA, Label(ms)[i], "x", <<E("m" \o ms[i], "x", RP, 1,
        IF sub = 0 THEN PV(1) ELSE [PV(1) EXCEPT !.sub = RInt(sub)])>>)] \o
    [i \in 1..Len(ps) |-> D("p" \o ps[i], "making x", TA, Label(ps)[i], "x", <<E("p" \o ps[i], "x", RP, 2, PV(v[i]))>>)] \o
    [i \in 1..Len(gs) |-> D("g" \o gs[i], "market group for x", MG, gs[i], "x", <<E("g" \o gs[i], "x", RP, 1, PV(0))>>)] \o
    [i \in 1..Len(cs) |-> D("c" \o cs[i], "making y", TA, Label(cs)[i], "y", <<E("c" \o cs[i], "y", RP, 1, PV(7)), E("u" \o cs[i], "x", TI, 3, NoPV)>> \o
        (IF hl = "" THEN <<>> ELSE <<[E("h" \o cs[i], "x", TI, 2, NoPV) EXCEPT !.link = IF hl = "m" THEN "m" \o ms[Len(ms)] ELSE "p" \o ps[Len(ps)]]>>))]
Space == {Build(ms, ps, gs, cs, v, sub, hl) : ms \in MarketSets, ps \in ProducerSets, gs \in GroupSets, cs \in ConsumerSets, v \in Vols, sub \in Subtracted, hl \in HardLinks}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES db, src, phase
vars == <<db, src, phase>>
Init == db \in Space /\ src = db /\ phase = "raw"
Step(from, to, f(_)) == phase = from /\ phase' = to /\ db' = f(db) /\ UNCHANGED src
Next == \/ Step("raw", "row", Relabel)
        \/ Step("row", "hard", Actualize)
        \/ Step("hard", "sup", LAMBDA x : Suppliers1(World, x))
        \/ Step("sup", "vol", Volumes)
        \/ Step("vol", "purge", LAMBDA x : Purge(Purge(x, MA), TA))
        \/ Step("purge", "alloc", LAMBDA x : Alloc(x, MA))
        \/ Step("alloc", "groups", LAMBDA x : Groups(World, x))
        \/ Step("groups", "gvol", GroupVolumes)
        \/ Step("gvol", "galloc", LAMBDA x : Alloc(x, MG))
        \/ Step("galloc", "linked", LAMBDA x : Consumers(World, x))
        \/ Step("linked", "done", DropUnlinked)
        \/ (phase = "done" /\ UNCHANGED vars)

After(ps) == phase \in ps
Late == {"sup", "vol", "purge", "alloc", "groups", "gvol", "galloc", "linked"}
SupCodes(d) == {d.sup[k].code : k \in 1..Len(d.sup)}
NotRejected == phase = "row" => ~MarketsRejected(World, db)
RowIffRegional == phase = "row" => \A i \in 1..Len(db) : db[i].loc = "RoW" =>
    src[i].loc = "GLO" /\ (\E j \in 1..Len(db) : j # i /\ src[j].name = src[i].name) /\ RSign(PVol(db[i])) >= 0 /\ RLe(PVol(db[i]), PVol(src[i]))
NoSharedProducer == After(Late) => \A i, j \in Typed(db, MA) : i # j /\ db[i].refp = db[j].refp => SupCodes(db[i]) \cap SupCodes(db[j]) = {}
NonNegative == \A i \in 1..Len(db) : RSign(PVol(db[i])) >= 0
SharesSum == After({"alloc", "linked"}) => \A i \in Typed(db, MA) : LET q == Sel(db[i].excs, LAMBDA e : e.type = TI) IN
    q # <<>> => RSumOver(q, LAMBDA e : e.amt) = TheRP(db[i]).amt
GroupShares == After({"galloc", "linked"}) => \A i \in Typed(db, MG) : LET q == Sel(db[i].excs, LAMBDA e : e.type = TI) IN
    q # <<>> => RSumOver(q, LAMBDA e : e.amt) = TheRP(db[i]).amt
(* the markets a group draws on, directly or through other groups *)
RECURSIVE Leaves(_, _, _)
Leaves(x, i, fuel) == IF x[i].type # MG \/ fuel = 0 THEN <<x[i].code>>
    ELSE FlattenSeq([k \in 1..Len(x[i].sup) |-> Leaves(x, CHOOSE j \in 1..Len(x) : x[j].code = x[i].sup[k].code, fuel - 1)])
NoDoubleCounting == After({"groups", "gvol", "galloc", "linked"}) => \A i \in Typed(db, MG) : db[i].hassup =>
    LET q == Leaves(db, i, 8) IN Cardinality(Range(q)) = Len(q) /\ \A c \in Range(q) : c # db[i].code
GreedyIsChosen == phase = "groups" => \A i \in Typed(db, MG) :
    ChosenOK(World, Faces(World, db[i].loc), GroupCands(db, i), {db[i].sup[k].loc : k \in 1..Len(db[i].sup)}, RowOf(World, db, db[i].refp))
GroupVolume == phase = "gvol" => \A i \in Typed(db, MG) : db[i].hassup =>
    PVol(db[i]) = RSumOver(Leaves(db, i, 8), LAMBDA c : PVol(db[CHOOSE j \in 1..Len(db) : db[j].code = c]))
DemandConserved == phase = "linked" => \A i \in Typed(db, TA) : LET s == src[CHOOSE j \in 1..Len(src) : src[j].id = db[i].id] IN
    RSumOver(Sel(db[i].excs, LAMBDA e : e.type = TI), LAMBDA e : e.amt) = RSumOver(Sel(s.excs, LAMBDA e : e.type = TI), LAMBDA e : e.amt)
Resolved == After({"alloc", "galloc", "linked", "done"}) => Closed(db)
NothingLoose == phase = "done" => \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) : ~Unlinked(db[i].excs[k])
HardLinksKept == phase = "done" => \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) :
    LET e == db[i].excs[k] IN e.link # "" => \E j \in 1..Len(db) : db[j].id = e.link /\ db[j].code = e.code
(* nothing purged had any volume to share *)
PurgedIdle == phase = "purge" => \A i \in 1..Len(src) : (\A j \in 1..Len(db) : db[j].id # src[i].id) => src[i].loc = "GLO"
=============================================================================
