--------------------------- MODULE Trace_Topology ---------------------------
(* Records [id, fn, shape, outcome, T, ...] of topology queries, made one  *)
(* after another against one long-lived topology object.                   *)
EXTENDS Topology, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
F(name, ok) == IF ok THEN {} ELSE {name}

Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE IF r.outcome # "ok" THEN {"Answered"}
    ELSE CASE r.fn = "contains" -> F("Contains", r.res = LocContains(r.T, r.parent, r.child, r.sub, r.row))
           [] r.fn = "contained" ->
                F("Contained", \A n \in Range(r.names) : (n \in Range(r.res)) = InContained(r.T, n, r.parent, r.excl, r.sub, r.row)) \cup
                F("Known", r.unknown = 0)
           [] r.fn = "row" -> F("RestOfWorld", r.whole /\ Range(r.res) = ResolveRow(r.T, Range(r.locs)))
           [] r.fn = "overlaps" -> F("Overlaps", r.res = Overlaps(r.T, r.locs))
           [] r.fn = "order" ->
                F("Permutation", Range(r.res) = Range(r.locs) /\ Cardinality(Range(r.res)) = Len(r.res)) \cup
                F("LargestFirst", OrderedBySize(r.T, r.res, Range(r.row.s))) \cup
                F("InputOrderFree", r.res = r.res2)
           [] OTHER -> {"UnknownFunction"}
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
