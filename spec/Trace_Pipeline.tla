--------------------------- MODULE Trace_Pipeline ---------------------------
(* Whole runs of the real system models against Pipeline.                  *)
(* Record: [id, model, outcome, T, low, src, fin]                          *)
(* E03: what Brightway is given for the result of a run that finished      *)
(* Record: [id, model, outcome, dbname, lin, acts, whole]                  *)
EXTENDS Pipeline, Json, IOUtils
B == INSTANCE Brightway
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Accepts(r) == Sourced(r.model, r.src) /\ Linkable(r.model, r.T, Acts(r.model, r.src, <<>>), r.low)
(* an activity turned around by a constrained market has no production     *)
(* volume; nothing says what it would be, but a run should not end there   *)
Unvolumed(r) == LET x == Relabel(Acts(r.model, r.src, <<>>)) IN
    \E i \in Typed(x, MA) : \E j \in Feeds(r.model, r.T, x, i) : ~TheRP(x[j]).pv.has
(* the consequential model refuses by-products nothing else produces *)
Refuses(r) == r.model = "con" /\ ~S!ByproductsCovered(r.src) /\ \A i \in 1..Len(r.src) : \A k \in 1..Len(r.src[i].excs) : ~r.src[i].excs[k].cond
SameFlows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : B!SameFlow(a[i], b[i])
CountIn(q, x) == Cardinality({i \in 1..Len(q) : B!SameFlow(q[i], x)})
SameFlowBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
OneOut(a) == Cardinality(B!Products(a.ex)) = 1
Exported(r, l, a) ==
    LET fs == B!Flows(l.ex, r.dbname, 1) IN
    F("Identity", a.n = 1 /\ a.fields = l.fields /\ a.db = r.dbname) \cup
    F("Product", a.unit = B!Product(l).unit /\ a.rp = B!Product(l).name /\ REq(a.amount, B!Product(l).amount)) \cup
    F("Makes", B!MakesItself(l.code, r.dbname, a.ex)) \cup
    F("Flows", SameFlows(a.ex, fs) \/ SameFlowBag(a.ex, fs)) \cup
    F("Targets", B!Targets(r.lin, l))
Export(r) ==
    IF r.outcome # "ok" THEN {}
    ELSE IF \E i \in 1..Len(r.lin) : ~OneOut(r.lin[i]) THEN {"Single"}
    ELSE F("Keys", B!Keyed(r.lin)) \cup
         F("Whole", (\A i \in 1..Len(r.acts) : r.acts[i].out = "ok") => r.whole = Len(r.lin)) \cup
         UNION {IF r.acts[i].out = "ok" THEN Exported(r, r.lin[i], r.acts[i])
                ELSE IF B!Holds(r.lin[i]) THEN {"HeldByproduct"} ELSE {"Converts"} : i \in 1..Len(r.lin)}
Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE IF Prop = "E03" THEN Export(r)
    ELSE IF Accepts(r) THEN (IF r.outcome # "ok" THEN (IF Unvolumed(r) THEN {"SwappedSupplier"} ELSE {"Accepted"}) ELSE Final(r.model, r.T, r.src, r.fin))
    ELSE IF Refuses(r) THEN F("Refused", r.outcome # "ok")
    ELSE {}
Claimed(r) == r.shape # "ok" \/ IF Prop = "E03" THEN r.outcome = "ok" ELSE Accepts(r) \/ Refuses(r)
VARIABLES l, bad, open
TraceInit == l = 0 /\ bad = <<>> /\ open = 0
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ open' = IF Claimed(Trace[l + 1]) THEN open ELSE open + 1
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad, open |-> open]) /\ l' = l + 1 /\ UNCHANGED <<bad, open>>
=============================================================================
