---------------------------- MODULE Trace_Details ----------------------------
(* Conformance for R02.  Record: [fn, of, outcome, src, out, msgs], a       *)
(* message [code, named, words, nums]: named, the step it says it is from.  *)
EXTENDS Details, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Due(r) == LET s == r.src  o == r.out IN
    CASE r.fn = "actual" -> Actual(s, o)
      [] r.fn = "labels" -> Labels(s, o)
      [] r.fn = "moved" -> Moved(s, o)
      [] r.fn = "hard" -> Hard(s, o)
      [] r.fn = "shrunk" -> Shrunk(s, o)
      [] r.fn = "divided" -> Divided(r.of, s, o)
      [] r.fn = "split" -> Consumers(s, o)
R02(r) == IF r.outcome # "ok" THEN {"Accepted"} ELSE
    LET due == Due(r) IN
    F("Told", AllTold(due, r.msgs)) \cup F("NothingElse", NothingElse(due, r.msgs)) \cup
    F("Form", \A k \in 1..Len(r.msgs) : r.msgs[k].named)
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE R02(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
