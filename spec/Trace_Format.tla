---------------------------- MODULE Trace_Format ----------------------------
(* Conformance for S12 and S13.                                            *)
EXTENDS Format, CommandLine, Json, IOUtils
Sav == INSTANCE Saving
F(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range1(q) == {q[i] : i \in 1..Len(q)}
Invalid(r) == {r.ds[i].name : i \in {i \in 1..Len(r.ds) : ~ValidDataset(r.ds[i].tree)}}
(* a small schema: an integer attribute n and one to three elements c      *)
XsdOK(f) == f.number /\ f.children \in 1..3 /\ ~f.stray
Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE CASE r.mode = "dataset" -> F("Accepts", r.accepted = ValidDataset(r.tree)) \cup F("Untouched", r.same)
           [] r.mode = "directory" -> LET bad == Invalid(r) IN
                F("Completes", r.out = "ok") \cup F("Reported", bad \subseteq Range1(r.named)) \cup F("NoFalseAlarm", Range1(r.named) \subseteq bad) \cup
                F("Count", r.count = Cardinality(bad)) \cup F("SourceKept", r.source)
           [] r.mode = "xsd" -> LET bad == {r.files[i].name : i \in {i \in 1..Len(r.files) : IF r.own THEN ~XsdOK(r.files[i]) ELSE r.files[i].damaged}} IN
                F("Completes", r.out = "ok") \cup F("Reported", bad \subseteq Range1(r.named)) \cup F("NoFalseAlarm", Range1(r.named) \subseteq bad) \cup
                F("AllValid", r.allvalid = (bad = {})) \cup F("SourceKept", r.source)
           [] r.mode = "line" -> LET a == Action(r.line)
                    calls == CASE a.what \in {"run", "validate", "xsd", "cleanup"} -> <<a>> [] OTHER -> <<>> IN
                F("Does", r.calls = calls) \cup
                F("Status", CASE a.what = "error" -> r.status # 0
                              [] r.interrupt /\ calls # <<>> -> r.status = 1
                              [] r.fails /\ calls # <<>> -> r.status # 0
                              [] OTHER -> r.status = 0) \cup
                F("Says", CASE a.what \in {"help", "list"} -> r.usage /\ ~r.errusage [] a.what = "version" -> r.version [] a.what = "error" -> r.errusage [] OTHER -> TRUE)
           [] r.mode = "process" -> F("Status", (r.status = 0) = r.good) \cup F("Ran", r.runs = (IF r.good THEN 1 ELSE 0)) \cup F("Kept", \/ ~r.good
                   \/ /\ \A i \in Range1(r.kept) : Sav!Selected(r.strategy, i)
                      /\ \A i \in 1..10 : Sav!Selected(r.strategy, i) => i \in Range1(r.kept))

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
