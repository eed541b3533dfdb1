---------------------------- MODULE Trace_Report ----------------------------
(* Conformance for S08: reports of real runs.                              *)
EXTENDS Report, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
F(name, ok) == IF ok THEN {} ELSE {name}
Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE IF r.out # "ok" THEN {"Completes"}
    ELSE LET want == Summary(r.run)  got == r.report IN
         F("Head", got.uuid = want.uuid /\ got.inputs = want.inputs /\ got.tenths = want.tenths) \cup
         F("Each", Len(got.fns) = Len(want.fns) /\ \A i \in 1..Len(want.fns) : got.fns[i].name = want.fns[i].name) \cup
         F("Description", Len(got.fns) = Len(want.fns) => \A i \in 1..Len(want.fns) : got.fns[i].desc = want.fns[i].desc) \cup
         F("Counted", Len(got.fns) = Len(want.fns) => \A i \in 1..Len(want.fns) : got.fns[i].count = want.fns[i].count /\ got.fns[i].secs = want.fns[i].secs) \cup
         F("Heading", Len(got.fns) = Len(want.fns) => \A i \in 1..Len(want.fns) : LET g == got.fns[i]  w == want.fns[i] IN g.table = w.table /\ g.title = w.title /\ g.cols = w.cols) \cup
         F("Elements", Len(got.fns) = Len(want.fns) => \A i \in 1..Len(want.fns) : got.fns[i].els = want.fns[i].els) \cup
         F("Charts", got.counts = want.counts /\ got.times = want.times) \cup
         F("Links", r.links) \cup F("Assets", r.assets) \cup F("Again", r.again) \cup F("Place", r.place) \cup F("Browser", r.opened = r.show)

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
