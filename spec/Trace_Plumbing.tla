--------------------------- MODULE Trace_Plumbing ---------------------------
(* Conformance for S05, S06, S07.                                          *)
EXTENDS Saving, Cleanup, Composition, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
F(name, ok) == IF ok THEN {} ELSE {name}
SeqSet(q) == {q[i] : i \in 1..Len(q)}

S05(r) ==
    IF r.malformed \/ ~Acceptable(r.q) THEN F("Rejected", r.out # "ok")
    ELSE IF r.out # "ok" THEN {"Accepted"}
    ELSE F("Selects", \A k \in 1..Len(r.steps) : r.sel[k] = Selected(r.q, r.steps[k]))
S06(r) ==
    IF r.out # "ok" THEN {"Completes"}
    ELSE LET left == {e.name : e \in Left(SeqSet(r.entries), r.limit)} IN
         F("OldDeleted", SeqSet(r.left) \subseteq left) \cup F("OthersKept", left \subseteq SeqSet(r.left)) \cup F("Untouched", r.same)
StepOk(st) == LET d == Do(st.before, st.o) IN st.after = d.list /\ st.out = d.out /\ st.val = d.val
S07(r) ==
    IF r.out # "ok" THEN {"Accepted"}
    ELSE IF r.type = "list"
    THEN F("Flattened", r.init = Flat(r.tree) /\ r.flat = Flat(r.tree)) \cup
         F("ListLike", \A k \in 1..Len(r.steps) : StepOk(r.steps[k]) /\ r.steps[k].before = (IF k = 1 THEN r.init ELSE r.steps[k - 1].after))
    ELSE F("Replaced", r.res = Replace(r.data, SeqSet(r.selected), r.kids, 1)) \cup F("Metadata", r.meta) \cup F("InputKept", r.same) \cup
         F("OncePerDataset", r.calls = SelectSeq(r.data, LAMBDA d : d \in SeqSet(r.selected)))
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE CASE Prop = "S05" -> S05(r) [] Prop = "S06" -> S06(r) [] Prop = "S07" -> S07(r)

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
