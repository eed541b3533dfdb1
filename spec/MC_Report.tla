----------------------------- MODULE MC_Report ------------------------------
(* Design check for S08: reading the log of any run, event by event, gives  *)
(* the report stated on the run; nothing is shown of a transformation that  *)
(* has not ended, and no element is shown under another transformation.     *)
EXTENDS Report, Json, IOUtils, SequencesExt, FiniteSets, TLC
Deep == IOEnv.TIER = "thorough"
Rows == {<<>>, <<<<"a">>>>, <<<<"a">>, <<"b">>>>}
Fn(nm, table, each, els, delta, mult, dur) ==
    [name |-> nm, desc |-> "d " \o nm, title |-> IF table THEN "t " \o nm ELSE "", cols |-> IF table THEN <<"c">> ELSE <<>>, table |-> table, els |-> els, each |-> each, delta |-> delta, mult |-> mult, dur |-> dur]
Fns == {Fn(nm, table, FALSE, els, delta, 0, dur) : nm \in {"f", "<lambda>"}, table \in BOOLEAN, els \in Rows, delta \in {-1, 0, 2}, dur \in {0, 3}} \cup
       {Fn(nm, table, TRUE, els, 0, mult, 1) : nm \in {"f"}, table \in BOOLEAN, els \in Rows, mult \in {0, 1, 2}}
Few == {f \in Fns : f.dur # 0 /\ f.delta # -1 /\ Len(f.els) # 1}
Run(n, fs) == [uuid |-> "u", count |-> n, fns |-> fs]
Space == {Run(n, <<f>>) : n \in 0..2, f \in Fns} \cup {Run(n, <<f, g>>) : n \in 1..2, f \in IF Deep THEN Fns ELSE Few, g \in Few} \cup
         {Run(2, <<f, g, h>>) : f \in (IF Deep THEN Few ELSE {x \in Few : x.name = "f" /\ x.els # <<>>}), g \in {x \in Few : x.name = "f"}, h \in {x \in Few : x.name = "f" /\ x.els # <<>>}}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES run, at, st
Init == run \in Space /\ at = 0 /\ st = Blank
Next == /\ at < Len(Log(run)) /\ at' = at + 1 /\ st' = Read(st, Log(run)[at + 1]) /\ UNCHANGED run
Done == at = Len(Log(run))
Complete == Done => st.rep = Summary(run)
OnlyEnded == LET e == Cardinality({i \in 1..at : Log(run)[i].type = "function end"}) IN Len(st.rep.fns) = e /\ st.rep.fns = SubSeq(Summary(run).fns, 1, e)
OpenOnce == at > 0 => (st.open <=> Log(run)[at].type \in {"function start", "element"})
=============================================================================
