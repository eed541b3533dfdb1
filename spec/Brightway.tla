------------------------------ MODULE Brightway -----------------------------
(* S09: a linked dataset, and the activity Brightway is given for it.       *)
(* An exchange: [type, name, unit, amount, code, comp, sub]; code "" if it  *)
(* has none.  Amounts are rationals.                                        *)
EXTENDS Rat, Sequences, FiniteSets

Neg(r) == RSub(RZero, r)
Kept(e) == RSign(e.amount) # 0 /\ (e.name = "refinery gas" => e.code # "")
Translate(e, dbname) ==
    CASE e.type = "reference product" -> [type |-> "production", amount |-> e.amount, db |-> dbname, code |-> e.code, name |-> "", unit |-> "", cats |-> <<>>]
      [] e.type = "from technosphere" -> [type |-> "technosphere", amount |-> e.amount, db |-> dbname, code |-> e.code, name |-> "", unit |-> "", cats |-> <<>>]
      [] e.type = "byproduct" -> [type |-> "technosphere", amount |-> Neg(e.amount), db |-> dbname, code |-> e.code, name |-> "", unit |-> "", cats |-> <<>>]
      [] e.type \in {"from environment", "to environment"} -> [type |-> "biosphere", amount |-> e.amount, db |-> "", code |-> "", name |-> e.name, unit |-> e.unit, cats |-> <<e.comp, e.sub>>]
SameFlow(a, b) == RCmp(a.amount, b.amount) = 0 /\ [a EXCEPT !.amount = RZero] = [b EXCEPT !.amount = RZero]
RECURSIVE Flows(_, _, _)
Flows(es, dbname, i) == IF i > Len(es) THEN <<>> ELSE (IF Kept(es[i]) THEN <<Translate(es[i], dbname)>> ELSE <<>>) \o Flows(es, dbname, i + 1)
Products(es) == {i \in 1..Len(es) : es[i].type = "reference product"}

(* Net output of a product by an activity, as Ocelot means it and as        *)
(* Brightway builds its matrix; likewise the environmental flows.           *)
RECURSIVE SumO(_, _, _), SumB(_, _, _), BioO(_, _, _), BioB(_, _, _)
SumO(es, c, i) == IF i > Len(es) THEN RZero
                  ELSE RAdd(SumO(es, c, i + 1), IF es[i].code # c THEN RZero ELSE CASE es[i].type \in {"reference product", "byproduct"} -> es[i].amount [] es[i].type = "from technosphere" -> Neg(es[i].amount) [] OTHER -> RZero)
SumB(fs, c, i) == IF i > Len(fs) THEN RZero
                  ELSE RAdd(SumB(fs, c, i + 1), IF fs[i].code # c THEN RZero ELSE CASE fs[i].type = "production" -> fs[i].amount [] fs[i].type = "technosphere" -> Neg(fs[i].amount) [] OTHER -> RZero)
BioO(es, key, i) == IF i > Len(es) THEN RZero ELSE RAdd(BioO(es, key, i + 1), IF es[i].type \in {"from environment", "to environment"} /\ <<es[i].name, es[i].comp, es[i].sub>> = key THEN es[i].amount ELSE RZero)
BioB(fs, key, i) == IF i > Len(fs) THEN RZero ELSE RAdd(BioB(fs, key, i + 1), IF fs[i].type = "biosphere" /\ <<fs[i].name, fs[i].cats[1], fs[i].cats[2]>> = key THEN fs[i].amount ELSE RZero)

(* E03: the whole database.  lin: the activities of a finished run, [code,  *)
(* ex]; acts: what Brightway is given.  An activity is named by its code;   *)
(* what it makes is itself, and what it takes in is made by an activity.    *)
Holds(a) == \E i \in 1..Len(a.ex) : a.ex[i].type = "byproduct" /\ RSign(a.ex[i].amount) # 0
Making(fs) == {i \in 1..Len(fs) : fs[i].type = "production"}
Keyed(lin) == \A i, j \in 1..Len(lin) : lin[i].code # "" /\ (lin[i].code = lin[j].code => i = j)
MakesItself(code, dbname, fs) == Cardinality(Making(fs)) = 1 /\ \A i \in Making(fs) : fs[i].code = code /\ fs[i].db = dbname /\ RSign(fs[i].amount) # 0
(* an input is an activity of the database whose product is what is taken   *)
Product(a) == a.ex[CHOOSE i \in Products(a.ex) : TRUE]
LeadsTo(lin, e) == \E j \in 1..Len(lin) : lin[j].code = e.code /\ Product(lin[j]).name = e.name /\ Product(lin[j]).unit = e.unit
Targets(lin, a) == \A i \in 1..Len(a.ex) : a.ex[i].type \in {"from technosphere", "byproduct"} /\ Kept(a.ex[i]) => LeadsTo(lin, a.ex[i])
=============================================================================
