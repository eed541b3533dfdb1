--------------------------- MODULE Trace_Caching ---------------------------
(* Conformance for S01.                                                    *)
EXTENDS Caching, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
F(name, ok) == IF ok THEN {} ELSE {name}
AsSet(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}

Extractions == {"x", "xf", "xrel", "xmp"}
Op(st) == IF st.op = "mid" THEN st.iop ELSE st.op
RECURSIVE Replay(_, _, _)
Replay(steps, i, W) ==
    IF i > Len(steps) THEN [W |-> W, f |-> {}]
    ELSE LET st == steps[i]
             now == Datasets(Contents(W, st.d))
             here == IF st.op \notin Extractions THEN {}
                     ELSE IF st.out # "ok" THEN {"Extracted"}
                     ELSE F("Current", AsSet(st.res) = now) \cup F("Once", Len(st.res) = Cardinality(AsSet(st.res))) \cup F("CacheUnused", st.op = "xf" => st.quiet)
             rest == Replay(steps, i + 1, IF st.op \in Extractions THEN W ELSE World(W, Op(st), st.d, st.f, st.g, st.v))
         IN [W |-> rest.W, f |-> here \cup rest.f]
Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE LET e == Replay(r.steps, 1, [src |-> <<AsSet(r.init[1]), AsSet(r.init[2])>>, target |-> 1]) IN
         e.f \cup F("Sources", \A d \in 1..2 : Datasets(e.W.src[d]) = AsSet(r.final[d]))

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
