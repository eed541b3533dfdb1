-------------------------- MODULE Trace_Extraction --------------------------
(* Conformance for S11: real files, really extracted.                      *)
EXTENDS Extraction, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE IF r.broken THEN (IF r.out = "ok" THEN {"NotSkipped"} ELSE {})
    ELSE IF r.out # "ok" THEN {"Completes"}
    ELSE DirectoryFails(r.ds, r.got) \cup (IF r.schema THEN {} ELSE {"InternalFormat"}) \cup (IF r.mp THEN {} ELSE {"Processes"}) \cup (IF r.source THEN {} ELSE {"SourceKept"})

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
