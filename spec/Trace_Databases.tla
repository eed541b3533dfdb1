--------------------------- MODULE Trace_Databases --------------------------
(* Conformance for S09 and S10.                                            *)
EXTENDS Brightway, Validation, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
F(name, ok) == IF ok THEN {} ELSE {name}
SameFlows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameFlow(a[i], b[i])
(* The order of exchanges is not claimed.                                   *)
CountIn(q, x) == Cardinality({i \in 1..Len(q) : SameFlow(q[i], x)})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
ActivityOk(src, got, dbname) ==
    F("Identity", got.fields = src.fields /\ got.db = dbname) \cup
    (LET rp == src.ex[CHOOSE i \in Products(src.ex) : TRUE] IN F("Product", got.unit = rp.unit /\ got.rp = rp.name /\ REq(got.amount, rp.amount))) \cup
    F("Flows", SameFlows(got.ex, Flows(src.ex, dbname, 1)) \/ SameBag(got.ex, Flows(src.ex, dbname, 1)))
S09(r) ==
    IF \E i \in 1..Len(r.src) : Cardinality(Products(r.src[i].ex)) # 1
    THEN F("Rejected", r.out # "ok")
    ELSE IF r.out # "ok" THEN {"Completes"}
    ELSE F("OnePerDataset", Len(r.got) = Len(r.src)) \cup F("SourceKept", r.same) \cup
         (IF Len(r.got) = Len(r.src) THEN UNION {ActivityOk(r.src[i], r.got[i], r.dbname) : i \in 1..Len(r.src)} ELSE {})
S10(r) ==
    CASE r.t = "db" ->
           F("Identifiers", IF IdErrors(r.db) = {} THEN r.ids.out = "ok" /\ r.ids.same ELSE r.ids.out \in IdErrors(r.db)) \cup
           F("Markets", IF MarketErrors(r.db) # {} THEN r.markets.out \in MarketErrors(r.db) \cup (IF \E i \in 1..Len(r.db) : Doubtful(r.db[i]) THEN {"InvalidMarketExchange"} ELSE {})
                        ELSE (\E i \in 1..Len(r.db) : Doubtful(r.db[i])) \/ (r.markets.out = "ok" /\ r.markets.same)) \cup
           F("Merge", IF MergeOk(r.db) THEN r.merge # "InvalidExchange" ELSE r.merge = "InvalidExchange")
      [] r.t = "alloc" -> LET v == Verdict(r.ds, r.method) IN
           F("Accepted", v = "yes" => r.out = "ok") \cup F("Rejected", v = "no" => r.out # "ok") \cup
           F("Unchanged", r.method \in {"none", "single", "combined"} /\ r.out = "ok" => r.same) \cup
           F("Error", r.method = "single" /\ v = "no" => r.out = "InvalidMultioutputDataset")
      [] r.t = "cons" -> F("Completes", r.out = "ok") \cup
           F("OnlyConsequential", r.out = "ok" => \A i \in 1..Len(r.ex) : r.left[i] = WithoutConsequential(r.ex[i], 1)) \cup F("Unchanged", r.same)
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE IF Prop = "S09" THEN S09(r) ELSE S10(r)

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
