------------------------------- MODULE Report -------------------------------
(* S08: the report of a run.                                               *)
(* A run: [uuid, count, fns], every transformation [name, desc, title,     *)
(* cols, table, els, each, delta, mult, dur]; one that is applied to single *)
(* datasets (each) logs els and takes dur for every one of them.  Times are *)
(* counted in half seconds.  A report shows the run as [uuid, inputs,       *)
(* tenths, fns, counts, times].                                            *)
EXTENDS Integers, Sequences

Count(f, n) == IF f.each THEN n * f.mult ELSE IF n + f.delta < 0 THEN 0 ELSE n + f.delta
Took(f, n) == IF f.each THEN n * f.dur ELSE f.dur
RECURSIVE Repeat(_, _)
Repeat(q, n) == IF n <= 0 THEN <<>> ELSE q \o Repeat(q, n - 1)
Logged(f, n) == IF f.each THEN Repeat(f.els, n) ELSE f.els
RECURSIVE CountAt(_, _), TimeAt(_, _)
CountAt(run, i) == IF i = 0 THEN run.count ELSE Count(run.fns[i], CountAt(run, i - 1))
TimeAt(run, i) == IF i = 0 THEN 0 ELSE TimeAt(run, i - 1) + Took(run.fns[i], CountAt(run, i - 1))

(* ---- the report, stated on the run --------------------------------------*)
Shown(f, n) == [name |-> f.name, desc |-> f.desc, title |-> f.title, cols |-> f.cols, table |-> f.table, els |-> Logged(f, n), count |-> Count(f, n), secs |-> Took(f, n) \div 2]
Summary(run) ==
    LET k == Len(run.fns) IN
    [uuid |-> run.uuid, inputs |-> run.count, tenths |-> TimeAt(run, k) * 5,
     fns |-> [i \in 1..k |-> Shown(run.fns[i], CountAt(run, i - 1))],
     counts |-> [i \in 1..(k + 1) |-> CountAt(run, i - 1)],
     times |-> [i \in 1..(k + 2) |-> IF i = 1 THEN 0 ELSE TimeAt(run, IF i = k + 2 THEN k ELSE i - 1)]]

(* ---- the log, and the report as read from it ----------------------------*)
Event(type, run, i, n, t, el) ==
    IF i = 0 THEN [type |-> type, uuid |-> run.uuid, count |-> n, time |-> t]
    ELSE [type |-> type, name |-> run.fns[i].name, desc |-> run.fns[i].desc, title |-> run.fns[i].title, cols |-> run.fns[i].cols, table |-> run.fns[i].table, count |-> n, time |-> t, el |-> el]
RECURSIVE Body(_, _)
Body(run, i) ==
    IF i > Len(run.fns) THEN <<>>
    ELSE LET n == CountAt(run, i - 1)  els == Logged(run.fns[i], n) IN
         <<Event("function start", run, i, n, TimeAt(run, i - 1), <<>>)>> \o
         [j \in 1..Len(els) |-> Event("element", run, i, n, TimeAt(run, i), els[j])] \o
         <<Event("function end", run, i, CountAt(run, i), TimeAt(run, i), <<>>)>> \o Body(run, i + 1)
Log(run) == <<Event("report start", run, 0, run.count, 0, <<>>)>> \o Body(run, 1) \o <<Event("report end", run, 0, 0, TimeAt(run, Len(run.fns)), <<>>)>>

(* One event after the other, as a reader of the log sees them.             *)
Blank == [open |-> FALSE, started |-> 0, els |-> <<>>, rep |-> [uuid |-> "", inputs |-> 0, tenths |-> 0, fns |-> <<>>, counts |-> <<>>, times |-> <<>>]]
Read(st, e) ==
    CASE e.type = "report start" -> [st EXCEPT !.rep = [@ EXCEPT !.uuid = e.uuid, !.inputs = e.count, !.counts = <<e.count>>, !.times = <<e.time>>]]
      [] e.type = "function start" -> [st EXCEPT !.open = TRUE, !.started = e.time, !.els = <<>>]
      [] e.type = "element" -> [st EXCEPT !.els = Append(@, e.el)]
      [] e.type = "function end" ->
            [st EXCEPT !.open = FALSE,
                       !.rep = [@ EXCEPT !.fns = Append(@, [name |-> e.name, desc |-> e.desc, title |-> e.title, cols |-> e.cols, table |-> e.table, els |-> st.els, count |-> e.count, secs |-> (e.time - st.started) \div 2]),
                                         !.counts = Append(@, e.count), !.times = Append(@, e.time)]]
      [] e.type = "report end" -> [st EXCEPT !.rep = [@ EXCEPT !.times = Append(@, e.time), !.tenths = (e.time - st.rep.times[1]) * 5]]
=============================================================================
