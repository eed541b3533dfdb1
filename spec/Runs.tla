-------------------------------- MODULE Runs --------------------------------
(* S02-S04: a model run as a sequence of steps, what it logs, saves and     *)
(* returns, and how it may end.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Saving

(* ---- configurations: trees of transformations ---------------------------*)
RECURSIVE Flat(_), FlatAll(_, _)
Flat(t) == IF t.t = "f" THEN <<t>> ELSE FlatAll(t.c, 1)
FlatAll(c, i) == IF i > Len(c) THEN <<>> ELSE Flat(c[i]) \o FlatAll(c, i + 1)

(* ---- probe transformations on data: sequences of [n, f, t] --------------*)
Tag(d, marks) == [d EXCEPT !.t = @ \o marks]
RECURSIVE Split(_, _, _)
Split(data, nm, i) == IF i > Len(data) THEN <<>> ELSE <<Tag(data[i], <<nm, "1">>), Tag(data[i], <<nm, "2">>)>> \o Split(data, nm, i + 1)
Apply(x, data) ==
    CASE x.k \in {"tag", "tagc", "single"} -> [i \in 1..Len(data) |-> Tag(data[i], <<x.name>>)]
      [] x.k = "sel" -> [i \in 1..Len(data) |-> IF data[i].n = x.sel THEN Tag(data[i], <<x.name>>) ELSE data[i]]
      [] x.k = "dup" -> IF data = <<>> THEN data ELSE Append(data, Tag(data[1], <<"copy">>))
      [] x.k = "drop" -> SubSeq(data, 1, Len(data) - 1)
      [] x.k = "rev" -> [i \in 1..Len(data) |-> data[Len(data) + 1 - i]]
      [] x.k = "split" -> Split(data, x.name, 1)
      [] x.k = "clear" -> <<>>
Stops(x) == x.k \in {"fail", "int", "kill"}

(* Data after the first i transformations.                                 *)
RECURSIVE After(_, _, _)
After(fs, init, i) == IF i = 0 THEN init ELSE Apply(fs[i], After(fs, init, i - 1))
(* The transformation that stops the run; one beyond the last if none does. *)
Stop(fs) == IF \E i \in 1..Len(fs) : Stops(fs[i]) THEN CHOOSE i \in 1..Len(fs) : Stops(fs[i]) /\ \A j \in 1..(i - 1) : ~Stops(fs[j]) ELSE Len(fs) + 1

(* ---- log ----------------------------------------------------------------*)
Ev(type, name, index, count, data, table) == [type |-> type, name |-> name, index |-> index, count |-> count, data |-> data, table |-> table]
Number == <<"#1", "#2", "#3">>
Emitted(x) == [j \in 1..x.emit |-> Ev(IF x.table THEN "table element" ELSE "list element", "", -1, -1, <<x.name, Number[j]>>, FALSE)]
RECURSIVE Steps(_, _, _, _)
Steps(fs, data, i, last) ==
    IF i > Len(fs) \/ i > last THEN <<>>
    ELSE <<Ev("function start", fs[i].name, i - 1, Len(data), <<>>, fs[i].table)>> \o Emitted(fs[i]) \o
         IF Stops(fs[i]) THEN <<>>
         ELSE LET d == Apply(fs[i], data) IN <<Ev("function end", fs[i].name, i - 1, Len(d), <<>>, fs[i].table)>> \o Steps(fs, d, i + 1, last)
Events(fs, init) ==
    <<Ev("report start", "", -1, Len(init), <<>>, FALSE)>> \o Steps(fs, init, 1, Stop(fs)) \o
    (IF Stop(fs) > Len(fs) THEN <<Ev("report end", "", -1, -1, <<>>, FALSE)>> ELSE <<>>)
Message == <<"m1", "m2", "m3">>
RECURSIVE Details(_, _, _)
Details(fs, data, i) ==
    IF i > Len(fs) THEN <<>>
    ELSE (IF data = <<>> THEN <<>> ELSE [j \in 1..fs[i].emit |-> [function |-> fs[i].name, message |-> Message[j], dsid |-> "id-" \o data[1].n, file |-> data[1].f, code |-> "~none"]]) \o
         IF Stops(fs[i]) THEN <<>> ELSE Details(fs, Apply(fs[i], data), i + 1)

(* ---- what is kept -------------------------------------------------------*)
Saved(fs, init, strategy, last) == {[index |-> i - 1, data |-> After(fs, init, i)] : i \in {i \in 1..last : Selected(strategy, i - 1)}}
Match(data, pred(_)) == SelectSeq(data, pred)
=============================================================================
