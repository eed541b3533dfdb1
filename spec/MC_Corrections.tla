--------------------------- MODULE MC_Corrections ---------------------------
(* Design check: the corrections, one object at a time, in any order and   *)
(* any number of times, end in one state; each step reports what changed.  *)
EXTENDS Corrections, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, amt, pv, pl) == [id |-> id, name |-> name, type |-> type, cls |-> IF type \in {RP, BP} THEN ALLOC ELSE "none", amt |-> RInt(amt), unit |-> "kg", link |-> "", code |-> "",
    cond |-> FALSE, f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> "", plist |-> pl]
D(id, name, type, loc, excs, texts) == [id |-> id, name |-> name, type |-> type, loc |-> loc, parent |-> "", code |-> "", refp |-> excs[1].name, tech |-> "current",
    hassup |-> FALSE, sup |-> <<>>, excs |-> excs, params |-> <<>>, attrs |-> "", texts |-> texts]
P(n, h) == [name |-> n, has |-> h]
Plain(t) == [k |-> 0, t |-> t]
Bad(k) == [k |-> k, t |-> Texts[k].bad]
Q(a) == E("r", "p", RP, 1, PV(a), <<>>)
Other == "unrelated"
Kinds == {TA, MA, MG}
Places == {"GLO", "RoW", "CH", WrongPlace, RightPlace}
(* every name with every type and place, and every text in every activity *)
Named == {D("1", n, t, l, <<Q(v)>>, <<>>) : n \in Unused \cup Confidential \cup {GasPipeline, Other, "Citric acid production", "market for nitro-compounds", "latex"}, t \in Kinds, l \in Places, v \in {0, 5}}
Gases == {D("2", n, t, "CH", <<E("g", m, ty, a, IF ty = RP THEN PV(0) ELSE NoPV, <<>>), E("h", Gas, TI, b, NoPV, <<>>)>>, <<>>) :
    n \in {Refinery, Other, "Petroleum refinery operation"}, t \in {TA, MA}, m \in {Gas, "p", "refinery gas, burned"}, ty \in {RP, TI, BP}, a \in {-1, 0, 2}, b \in {0, 3}}
Acts == {Texts[k].act : k \in 1..Len(Texts)} \cup {Other}
Formulas == {<<Bad(k)>> : k \in 1..Len(Texts)} \cup {<<Plain("2 * "), Bad(k), Plain(" + x")>> : k \in 1..Len(Texts)} \cup {<<Bad(1), Plain(" / "), Bad(1)>>, <<Plain("x + 1")>>}
Worded == {D("3", n, TA, "GLO", <<Q(1)>>, <<f, g>>) : n \in Acts, f \in Formulas, g \in (IF Deep THEN Formulas ELSE {<<Plain("x")>>, <<Bad(2)>>})}
Props == {{}, {"dry mass"}, Mandatory, Mandatory \ {"wet mass"}, {"price"}, Mandatory \cup {"price"}, {"Dry mass", "carbon content non fossil"}}
Propertied == {D("4", "a", TA, "GLO", <<E("r", "p", RP, 1, PV(v), [k \in 1..Cardinality(s) |-> LET n == SetToSeq(s)[k] IN P(n, ~(n = b))]), E("i", "q", TI, 1, NoPV, [k \in 1..Cardinality(u) |-> P(SetToSeq(u)[k], TRUE)])>>, <<>>) :
    s \in Props, u \in Props, b \in {"", "dry mass", "price"}, v \in {0, 2}}
Volumes == {D("5", "a", t, l, q, <<>>) : t \in Kinds, l \in {"RoW", "GLO"},
    q \in {<<Q(0)>>, <<Q(3)>>, <<E("r", "p", RP, 1, NoPV, <<>>)>>, <<Q(0), E("s", "q", RP, 1, PV(0), <<>>)>>, <<E("b", "q", BP, 1, PV(4), <<>>)>>,
          <<E("r", "p", RP, 1, [PV(0) EXCEPT !.orig = RInt(7)], <<>>)>>, <<E("r", "p", RP, 1, [PV(2) EXCEPT !.orig = RZero], <<>>)>>}}
Singles == Named \cup Gases \cup Worded \cup Propertied \cup Volumes
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq({<<d>> : d \in Singles}))

Mixed == {<<a, b>> : a \in {d \in Named : d.name \in {"market for refinery gas", "latex production", GasPipeline, Other} /\ d.loc \in {"GLO", "RoW", WrongPlace}},
                     b \in {d \in Gases : d.excs[1].amt # RInt(2)} \cup {d \in Worded : d.texts[2] = <<Bad(2)>>}}
VARIABLES db, src, log
vars == <<db, src, log>>
Init == db \in Mixed /\ src = db /\ log = {}
Set(i, d) == db[i] # d /\ db' = [db EXCEPT ![i] = d]
Say(i, w) == log' = log \cup {<<db[i].id, w>>} /\ UNCHANGED src
DoList == \E i \in 1..Len(db) : IsUnused(db[i]) /\ db' = Sel(db, LAMBDA d : d.id # db[i].id) /\ Say(i, "unused")
DoUnit == \E i \in 1..Len(db) : Set(i, OneUnit(db[i])) /\ Say(i, "unit")
DoPlace == \E i \in 1..Len(db) : Set(i, Replace(db[i])) /\ Say(i, "place")
DoGas == \E i \in 1..Len(db) : Set(i, CutGas(db[i])) /\ Say(i, "gas")
DoRow == \E i \in 1..Len(db) : IsEmptyRow(db[i]) /\ db' = Sel(db, LAMBDA d : d.id # db[i].id) /\ Say(i, "row")
DoText == \E i \in 1..Len(db) : Set(i, Mend(db[i])) /\ Say(i, "text")
Step == DoList \/ DoUnit \/ DoPlace \/ DoGas \/ DoRow \/ DoText
Done == ~ENABLED Step /\ UNCHANGED vars
Next == Step \/ Done
All(x) == LET a == Each(Each(Delist(x), OneUnit), Replace)  b == Each(Each(a, CutGas), Mend) IN DropRows(b)
(* any order, any number of times *)
Confluent == ~ENABLED Step => db = All(src)
Stable == All(All(src)) = All(src)
(* what is reported is what changed *)
Ids(x) == {x[i].id : i \in 1..Len(x)}
Told == \A i \in 1..Len(src) : (src[i].id \in {w[1] : w \in log}) <=> (src[i] \notin Range(db))
NoBadText == ~ENABLED Step => \A i \in 1..Len(db) : Mended(db[i]) = 0
=============================================================================
