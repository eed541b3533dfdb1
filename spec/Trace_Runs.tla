----------------------------- MODULE Trace_Runs -----------------------------
(* Conformance for S02-S04: histories of real runs.                        *)
EXTENDS Runs, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
F(name, ok) == IF ok THEN {} ELSE {name}
SeqSet(q) == {q[i] : i \in 1..Len(q)}

Leaves(r) == Flat(r.config)
(* How the run must have ended.                                            *)
Interrupted(r) == r.hit \/ (Stop(Leaves(r)) <= Len(Leaves(r)) /\ Leaves(r)[Stop(Leaves(r))].k \in {"int", "kill"})
Failed(r) == ~Interrupted(r) /\ Stop(Leaves(r)) <= Len(Leaves(r))
Proper(e) == Ev(e.type, e.name, e.index, e.count, e.data, e.table)
ProperLog(q) == [i \in 1..Len(q) |-> Proper(q[i])]
Last(r) == IF Failed(r) THEN Stop(Leaves(r)) - 1 ELSE Len(Leaves(r))
LogOk(r, q) == ProperLog(q) = Events(Leaves(r), r.init) /\ q[1].uuid = r.uuid
DetailsOk(r, q) == q = Details(Leaves(r), r.init, 1)

FollowOk(r) ==
    LET fs == Leaves(r)  hit(d) == \E k \in 1..Len(r.hits) : r.hits[k] = d.f
        want == IF r.follow = "" THEN {} ELSE {i \in 1..Last(r) : SelectSeq(After(fs, r.init, i), hit) # <<>>}
    IN /\ Len(r.follows) = Cardinality(want)
       /\ \A i \in want : \E k \in 1..Len(r.follows) :
            LET x == r.follows[k] IN x.index = i - 1 /\ x.name = fs[i].name /\ x.string = r.follow /\ x.data = SelectSeq(After(fs, r.init, i), hit)
SavedOk(r) == Len(r.saved) = Cardinality(Saved(Leaves(r), r.init, r.strategy, Last(r))) /\ SeqSet(r.saved) = Saved(Leaves(r), r.init, r.strategy, Last(r))

RunS02(r) ==
    LET fs == Leaves(r) IN
    IF r.outcome # "ok" THEN {"Completes"}
    ELSE F("Returned", r.returned = After(fs, r.init, Len(fs)) /\ r.dirok /\ r.new = 1) \cup
         F("Saved", SavedOk(r)) \cup F("Followed", FollowOk(r)) \cup
         F("Final", r.final.has /\ r.final.data = After(fs, r.init, Len(fs))) \cup
         F("Log", LogOk(r, r.report)) \cup
         F("NothingElse", r.extra = <<>> /\ r.others)
RunS03(r) ==
    IF Interrupted(r)
    THEN F("Exit", r.outcome = "exit" /\ r.code # 0) \cup F("Gone", r.new = 0) \cup F("Undisturbed", r.others)
    ELSE IF Failed(r)
    THEN F("Propagates", r.outcome = "Boom:" \o Leaves(r)[Stop(Leaves(r))].name) \cup
         F("Kept", r.new = 1 /\ LogOk(r, r.report) /\ SavedOk(r) /\ ~r.final.has) \cup F("Undisturbed", r.others)
    ELSE F("LaterRun", RunS02(r) = {})
(* stamps[i]: how many calls of transformations came before the time stamp *)
(* of event i.  Between two events there is a call only after a start.     *)
StampsOk(r) == LET n == Len(r.stamps) IN
    /\ n > 0 /\ r.stamps[1] = 0
    /\ \A i \in 1..n : LET next == IF i < n THEN r.stamps[i + 1] ELSE r.calls IN
          IF r.report[i].type = "function start" THEN next >= r.stamps[i] ELSE next = r.stamps[i]
    /\ \A i \in 1..Len(r.dstamps) : (i > 1 => r.dstamps[i - 1] <= r.dstamps[i])
          /\ \E j \in 1..n : r.report[j].type \in {"table element", "list element"} /\ r.stamps[j] = r.dstamps[i]
RunS04(r) ==
    IF Interrupted(r) THEN F("Gone", ~r.later.exists)
    ELSE F("OwnEvents", LogOk(r, r.report)) \cup F("OwnDetails", DetailsOk(r, r.detailed)) \cup
         F("Stamps", Len(r.report) = Len(r.stamps) /\ Len(r.detailed) = Len(r.dstamps) /\ StampsOk(r)) \cup
         F("LaterEvents", r.later.exists /\ r.later.report = r.report) \cup F("LaterDetails", r.later.detailed = r.detailed)
Fails(h) ==
    IF h.shape # "ok" THEN {"WellFormed"}
    ELSE UNION {CASE Prop = "S02" -> RunS02(h.runs[i]) [] Prop = "S03" -> RunS03(h.runs[i]) [] Prop = "S04" -> RunS04(h.runs[i]) : i \in 1..Len(h.runs)}

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
