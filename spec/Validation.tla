------------------------------ MODULE Validation ----------------------------
(* S10: which databases are accepted.  A dataset: [id, type, ex], an        *)
(* exchange: [type, name, linked, class, amount, price, cons, var]; amount  *)
(* and price are signs (-1, 0, 1), price 9 if there is none; cons the value *)
(* of its consequential property, 9 if there is none; var: it has a variable*)
EXTENDS Integers, Sequences, FiniteSets

Idx(q) == 1..Len(q)
RPs(ds) == {i \in Idx(ds.ex) : ds.ex[i].type = "reference product"}
AllocBy(ds) == {i \in Idx(ds.ex) : ds.ex[i].type = "byproduct" /\ ds.ex[i].class = "allocatable product"}
Market(ds) == ds.type = "market activity"
TheRP(ds) == ds.ex[CHOOSE i \in RPs(ds) : TRUE]

DuplicateIds(db) == \E i, j \in Idx(db) : i # j /\ db[i].id = db[j].id
BadProducts(ds) == Market(ds) /\ Cardinality(RPs(ds)) # 1
Consumes(ds) == Market(ds) /\ Cardinality(RPs(ds)) = 1 /\ \E i \in Idx(ds.ex) : ds.ex[i].type = "from technosphere" /\ ds.ex[i].name = TheRP(ds).name /\ ~ds.ex[i].linked
(* Other flows that bear the name of the product: not claimed either way.   *)
Doubtful(ds) == Market(ds) /\ Cardinality(RPs(ds)) = 1 /\ \E i \in Idx(ds.ex) : ds.ex[i].type \notin {"from technosphere", "reference product"} /\ ds.ex[i].name = TheRP(ds).name /\ ~ds.ex[i].linked

MarketErrors(db) == (IF \E i \in Idx(db) : BadProducts(db[i]) THEN {"InvalidMarket"} ELSE {}) \cup (IF \E i \in Idx(db) : Consumes(db[i]) THEN {"InvalidMarketExchange"} ELSE {})
IdErrors(db) == IF DuplicateIds(db) THEN {"IdenticalDatasets"} ELSE {}

SingleOutput(ds) == Cardinality(RPs(ds)) = 1 /\ AllocBy(ds) = {}
Allocatable(ds, method) == IF method = "recycling" THEN AllocBy(ds) ELSE RPs(ds) \cup AllocBy(ds)
Priced(ds, S) == \A i \in S : ds.ex[i].price >= 0 /\ ds.ex[i].price # 9 /\ ds.ex[i].amount >= 0
Worth(ds, S) == \A i \in S : ds.ex[i].price = 1 /\ ds.ex[i].amount = 1
(* "yes": must be accepted, "no": must be rejected, "any": not claimed.     *)
Verdict(ds, method) ==
    CASE method \in {"none", "single"} -> IF SingleOutput(ds) THEN "yes" ELSE "no"
      [] method = "economic" -> LET S == RPs(ds) \cup AllocBy(ds) IN IF ~Priced(ds, S) THEN "no" ELSE IF Worth(ds, S) /\ S # {} THEN "yes" ELSE "any"
      [] method = "recycling" -> IF Cardinality(RPs(ds)) # 1 THEN "no" ELSE IF TheRP(ds).amount >= 0 \/ AllocBy(ds) = {} \/ ~Priced(ds, AllocBy(ds)) THEN "no" ELSE IF Worth(ds, AllocBy(ds)) THEN "yes" ELSE "any"
      [] method = "combined" -> IF \A i \in RPs(ds) : ds.ex[i].amount = 0 \/ ds.ex[i].var THEN "yes" ELSE "no"
      [] method = "waste" -> IF Cardinality(RPs(ds)) # 1 THEN "no" ELSE IF TheRP(ds).amount >= 0 \/ TheRP(ds).class # "waste" THEN "no" ELSE IF \A i \in AllocBy(ds) : ds.ex[i].amount # 0 THEN "yes" ELSE "any"
MergeOk(db) == \A i \in Idx(db) : AllocBy(db[i]) = {}
RECURSIVE WithoutConsequential(_, _)
WithoutConsequential(ex, i) == IF i > Len(ex) THEN <<>> ELSE (IF ex[i].cons = 1 THEN <<>> ELSE <<i>>) \o WithoutConsequential(ex, i + 1)
=============================================================================
