---------------------------- MODULE MC_Databases ----------------------------
(* Design checks.  S09: the activity that Brightway is given means the same *)
(* column of both matrices as the dataset.  S10: checking a database in     *)
(* stages (identifiers, products of markets, inputs of markets), each stage *)
(* stopping at the first defect of its kind, rejects exactly the databases  *)
(* with a defect, and names a defect that is there.                         *)
EXTENDS Brightway, Validation, Json, IOUtils, SequencesExt, TLC
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
(* ---- S09 ----------------------------------------------------------------*)
E9(type, name, amt, code, comp) == [type |-> type, name |-> name, unit |-> "kg", amount |-> amt, code |-> code, comp |-> comp, sub |-> IF comp = "" THEN "" ELSE "s"]
Amts == {<<0, 1>>, <<1, 1>>, <<-3, 2>>}
Flow9 == {E9(ty, nm, am, cd, "") : ty \in {"from technosphere", "byproduct"}, nm \in {"x", "refinery gas"}, am \in Amts, cd \in {"c1", "c2"}} \cup {E9("from technosphere", "refinery gas", am, "", "") : am \in Amts}
         \cup {E9(ty, "CO2", am, "", cm) : ty \in {"from environment", "to environment"}, am \in Amts, cm \in {"air", "water"}} \cup {E9("dropped product", "y", <<0, 1>>, "", "")}
Rp9 == {E9("reference product", nm, am, "c1", "") : nm \in {"x", "refinery gas"}, am \in {<<1, 1>>, <<-1, 1>>, <<5, 2>>}}
Ds9 == {<<rp, f>> : rp \in Rp9, f \in Flow9} \cup {<<f, rp, g>> : rp \in {r \in Rp9 : r.name = "x"}, f \in Flow9, g \in (IF Deep THEN Flow9 ELSE {x \in Flow9 : RSign(x.amount) < 0})} \cup {<<f>> : f \in Flow9} \cup {<<rp, rp>> : rp \in Rp9}
(* ---- S10 ----------------------------------------------------------------*)
E10(type, name, linked, class, amount, price, cons) == [type |-> type, name |-> name, linked |-> linked, class |-> class, amount |-> amount, price |-> price, cons |-> cons, var |-> price # 9]
RP10 == {E10("reference product", nm, FALSE, "allocatable product", 1, 1, 9) : nm \in {"x", "y"}}
In10 == {E10("from technosphere", nm, lk, "", am, 9, 9) : nm \in {"x", "z"}, lk \in BOOLEAN, am \in {-1, 0, 1}}
MDs == {[id |-> "i", type |-> ty, ex |-> ex] : ty \in {"market activity", "transforming activity", "market group"}, ex \in {<<>>} \cup {<<r>> : r \in RP10} \cup {<<r, e>> : r \in RP10, e \in RP10 \cup In10} \cup {<<e, f, r>> : r \in {x \in RP10 : x.name = "x"}, e \in {x \in In10 : x.amount # 0}, f \in {x \in In10 : x.linked}}}
Few == {d \in MDs : d.type # "market group" /\ Len(d.ex) <= 2 /\ \A k \in 1..Len(d.ex) : d.ex[k].amount >= 0}
DBs == {<<[d EXCEPT !.id = "a"], [e EXCEPT !.id = i]>> : d \in (IF Deep THEN MDs ELSE Few), e \in Few, i \in {"a", "b"}} \cup {<<d>> : d \in MDs} \cup {<<[d EXCEPT !.id = "a"], [d EXCEPT !.id = "b"], [e EXCEPT !.id = i]>> : d \in {x \in Few : x.type = "transforming activity"}, e \in {x \in Few : x.type = "market activity"}, i \in {"a", "c"}}
Prod10 == {E10("byproduct", "b", FALSE, cl, am, pr, 9) : cl \in {"allocatable product", "waste", "recyclable"}, am \in {-1, 0, 1}, pr \in {-1, 0, 1, 9}} \cup {E10("reference product", "r", FALSE, cl, am, pr, 9) : cl \in {"allocatable product", "waste", "recyclable"}, am \in {-1, 0, 1}, pr \in {-1, 0, 1, 9}}
PRp == {p \in Prod10 : p.type = "reference product"}
ADs == {<<p>> : p \in Prod10} \cup {<<p, b>> : p \in PRp, b \in {x \in Prod10 : x.type = "byproduct" \/ x.amount = 1}} \cup (IF Deep THEN {<<b, p, b2>> : p \in PRp, b \in {x \in Prod10 : x.type = "byproduct" /\ x.amount = 1}, b2 \in {x \in Prod10 : x.type = "byproduct" /\ x.class = "allocatable product" /\ x.price # 0}} ELSE {})
Methods == {"none", "single", "economic", "recycling", "waste", "combined"}
ConsVals == UNION {{ <<k>> \o q : k \in {0, 1, 2, 9}} : q \in [1..2 -> {0, 1, 2, 9}]}
Space == IF Prop = "S09" THEN {[t |-> "bw", ex |-> x] : x \in Ds9}
         ELSE {[t |-> "db", db |-> x] : x \in DBs} \cup {[t |-> "alloc", ds |-> [id |-> "a", type |-> "transforming activity", ex |-> x], method |-> m] : x \in ADs, m \in Methods} \cup {[t |-> "cons", cons |-> c] : c \in ConsVals}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES d, stage, at, verdict
vars == <<d, stage, at, verdict>>
Init == d \in (IF Prop = "S09" THEN Ds9 ELSE DBs) /\ stage = (IF Prop = "S09" THEN "convert" ELSE "ids") /\ at = 1 /\ verdict = <<>>
(* S09: one exchange after the other *)
Convert == stage = "convert" /\ at <= Len(d) /\ verdict' = (IF Kept(d[at]) THEN Append(verdict, Translate(d[at], "db")) ELSE verdict) /\ at' = at + 1 /\ UNCHANGED <<d, stage>>
(* S10 *)
CheckIds == stage = "ids" /\ (IF at > Len(d) THEN stage' = "products" /\ at' = 1 /\ verdict' = verdict
                              ELSE IF \E j \in 1..(at - 1) : d[j].id = d[at].id THEN stage' = "stop" /\ verdict' = <<"IdenticalDatasets">> /\ at' = at
                              ELSE at' = at + 1 /\ UNCHANGED <<stage, verdict>>) /\ d' = d
CheckProducts == stage = "products" /\ (IF at > Len(d) THEN stage' = "inputs" /\ at' = 1 /\ verdict' = verdict
                              ELSE IF BadProducts(d[at]) THEN stage' = "stop" /\ verdict' = <<"InvalidMarket">> /\ at' = at
                              ELSE at' = at + 1 /\ UNCHANGED <<stage, verdict>>) /\ d' = d
CheckInputs == stage = "inputs" /\ (IF at > Len(d) THEN stage' = "stop" /\ verdict' = <<"ok">> /\ at' = at
                              ELSE IF Consumes(d[at]) THEN stage' = "stop" /\ verdict' = <<"InvalidMarketExchange">> /\ at' = at
                              ELSE at' = at + 1 /\ UNCHANGED <<stage, verdict>>) /\ d' = d
Next == Convert \/ CheckIds \/ CheckProducts \/ CheckInputs
SameColumn == Prop = "S09" /\ at > Len(d) =>
    /\ verdict = Flows(d, "db", 1)
    /\ \A c \in {"c1", "c2"} : SumO(d, c, 1) = SumB(verdict, c, 1)
    /\ \A m \in {"air", "water"} : BioO(d, <<"CO2", m, "s">>, 1) = BioB(verdict, <<"CO2", m, "s">>, 1)
    /\ \A i \in 1..Len(verdict) : RSign(verdict[i].amount) # 0
Sound == Prop = "S10" /\ stage = "stop" => IF verdict = <<"ok">> THEN IdErrors(d) \cup MarketErrors(d) = {} ELSE verdict[1] \in IdErrors(d) \cup MarketErrors(d)
=============================================================================
