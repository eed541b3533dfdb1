------------------------------ MODULE MC_Tables -----------------------------
(* Design check: a transformation goes through a database one thing at a   *)
(* time and writes a row for each thing it changes.  At every moment the   *)
(* rows written are those due to the difference made so far, so that rows  *)
(* can be judged without knowing how or in what order the work was done.   *)
EXTENDS Tables, Json, IOUtils
NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a, v) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a), !.var = v]
E(id, name, type, amt, link, cls, pv) == [id |-> id, name |-> name, type |-> type, cls |-> cls, amt |-> RInt(amt), unit |-> "kg", link |-> link, code |-> "",
    cond |-> FALSE, f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> ""]
D(id, name, type, loc, excs) == [id |-> id, name |-> name, type |-> type, loc |-> loc, parent |-> "", code |-> "c" \o id, refp |-> excs[1].name, tech |-> "current",
    hassup |-> FALSE, sup |-> <<>>, excs |-> excs, params |-> <<>>, attrs |-> ""]
R(i, a) == E(i \o "r", "p", RP, a, "", ALLOC, PV(4, ""))
Cls == {ALLOC, "waste", "recyclable"}
Pairs(S) == {<<D("1", "a", TA, "GLO", <<R("1", 1), x>>), D("2", "b", TA, "CH", <<R("2", 2), [y EXCEPT !.id = "y"], [x EXCEPT !.id = "z"]>>)>> : x \in S, y \in S}
Links(S) == {E("x", n, t, a, l, "none", NoPV) : n \in {"p", "q"}, t \in S, a \in {-1, 0, 2}, l \in {"", "1", "2"}}
Props == {[E("x", "q", t, a, "", "none", NoPV) EXCEPT !.props = k] : t \in {TI, BP}, a \in {0, 3}, k \in {"", "one", "zero", "two"}}
Kids == {E("x", n, t, 2, l, "none", NoPV) : n \in {"p", "q"}, t \in {TI, RP, BP}, l \in {"", "P", "2"}}
Vars == {E("x", "q", t, 1, "", "none", [PV(3, v) EXCEPT !.f = f]) : t \in {RP, BP}, v \in {"", "v"}, f \in {"", "1+2"}} \cup {E("x", "q", TI, 1, "", "none", NoPV)}
Byps == {E("x", n, BP, a, "", c, PV(v, "")) : n \in {"q", "w"}, a \in {-2, 1}, c \in Cls, v \in {0, 5}}
Conds == {[E("x", n, t, a, "", c, PV(1, "")) EXCEPT !.cond = k] : n \in {"q"}, t \in {TI, BP}, a \in {-2, 1}, c \in {ALLOC, "waste"}, k \in BOOLEAN}
RC == ", Recycled Content cut-off"
Suffixed == {E("x", n, t, 1, "", "none", NoPV) : n \in {"p", "p" \o RC, "q" \o RC, "Recycled Content cut-off", RC \o " p"}, t \in {TI, BP}}
Parent(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.parent = IF q[i].id = "1" THEN "P" ELSE ""]]
Spaces == [zero |-> Pairs(Links({TI, RP})), rps |-> Pairs(Links({RP, "dropped product", TI, BP})), conseq |-> Pairs(Props), child |-> {Parent(q) : q \in Pairs(Kids)}, shift |-> Pairs(Vars),
           supply |-> Pairs(Byps), conditional |-> Pairs(Conds), flip |-> Pairs(Byps), rename |-> Pairs(Suffixed), recycle |-> Pairs(Byps), unlinked |-> Pairs(Links({TI, RP}))]
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(UNION {{[fn |-> f, db |-> q] : q \in Spaces[f]} : f \in DOMAIN Spaces}))

(* what each does to one exchange, and the row it writes *)
Acts(f, d, e) ==
    CASE f = "zero" -> e.link # "" /\ IsZero(e.amt)
      [] f = "rps" -> e.link # "" /\ e.type \in {RP, "dropped product"}
      [] f = "child" -> e.link # "" /\ e.link = d.parent /\ e.type \notin {RP, BP}
      [] f = "shift" -> e.pv.var # ""
      [] f = "supply" -> IsAllocBP(e) /\ IsZero(e.pv.amt)
      [] f = "conditional" -> e.type = BP /\ e.cond
      [] f = "flip" -> e.type = BP /\ e.cls # ALLOC
      [] OTHER -> FALSE
Change(f, d, e) ==
    CASE f \in {"zero", "rps"} -> [e EXCEPT !.link = ""]
      [] f = "child" -> [e EXCEPT !.link = d.id]
      [] f = "shift" -> [e EXCEPT !.pv.var = ""]
      [] f = "supply" -> [e EXCEPT !.pv.amt = RMul(RInt(4), RAbs(e.amt))]
      [] f = "conditional" -> [e EXCEPT !.type = "dropped product", !.amt = RZero]
      [] f = "flip" -> [e EXCEPT !.type = TI, !.cls = "none", !.amt = RNeg(e.amt)]
Row(f, d, e) ==
    CASE f \in {"zero", "rps", "conditional"} -> <<T(d.name), T(e.name)>>
      [] f = "child" -> <<T(d.name), T(d.loc), N(e.amt)>>
      [] f = "shift" -> <<T(d.name), T("Shifted PV parameter: " \o e.pv.var), N(e.pv.amt)>>
      [] f = "supply" -> <<T(d.name), T(e.name), N(RMul(RInt(4), RAbs(e.amt)))>>
      [] f = "flip" -> <<T(d.name), T(e.name), T(e.cls)>>
Drops(f, e) == (f = "conseq" /\ e.props = "one") \/ (f = "unlinked" /\ e.type = TI /\ e.code = "")
Due(f, s, o) ==
    CASE f \in {"zero", "rps"} -> Unlinked(s, o)
      [] f = "child" -> Relinked(s, o)
      [] f = "shift" -> Shifted(s, o)
      [] f = "supply" -> Supplied(s, o)
      [] f = "conditional" -> Zeroed(s, o)
      [] f = "flip" -> Flipped(s, o)
      [] f \in {"conseq", "unlinked"} -> Removed(s, o)
Machines == {"zero", "rps", "child", "shift", "supply", "conditional", "flip", "conseq", "unlinked"}
VARIABLES fn, src, db, log
vars == <<fn, src, db, log>>
Init == fn \in Machines /\ src \in Spaces[fn] /\ db = src /\ log = <<>>
Step == \E i \in 1..Len(db) : \E k \in 1..Len(db[i].excs) : LET d == db[i]  e == d.excs[k] IN
    \/ Acts(fn, d, e) /\ db' = [db EXCEPT ![i].excs[k] = Change(fn, d, e)] /\ log' = Append(log, Row(fn, d, e)) /\ UNCHANGED <<fn, src>>
    \/ Drops(fn, e) /\ db' = [db EXCEPT ![i].excs = Sel(@, LAMBDA x : x.id # e.id)] /\ log' = Append(log, <<T(d.name), T(e.name), N(e.amt)>>) /\ UNCHANGED <<fn, src>>
Next == Step \/ (~ENABLED Step /\ UNCHANGED vars)
RowsAreDue == SameRows(log, Due(fn, src, db))
(* nothing written, nothing changed: and a log that lacks a row, or has one twice, is noticed *)
Silent == log = <<>> <=> db = src
Noticed == log # <<>> => ~SameRows(Tail(log), Due(fn, src, db)) /\ ~SameRows(log \o <<log[1]>>, Due(fn, src, db))
=============================================================================
