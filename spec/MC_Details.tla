----------------------------- MODULE MC_Details -----------------------------
(* Design check: a step works on one activity at a time, in any order, and  *)
(* says what it does.  At every moment the messages are those due to the    *)
(* difference made so far, and a message left out, said twice or said of    *)
(* another activity is noticed.                                             *)
EXTENDS Details, Json, IOUtils
NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, amt, link, pv) == [id |-> id, name |-> name, type |-> type, cls |-> IF type = RP THEN ALLOC ELSE "none", amt |-> RInt(amt), unit |-> "kg", link |-> link, code |-> "",
    cond |-> FALSE, f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> ""]
D(id, name, type, loc, p, v, excs) == [id |-> id, name |-> name, type |-> type, loc |-> loc, parent |-> "", code |-> "c" \o id, refp |-> p, tech |-> "current", label |-> "",
    hassup |-> FALSE, sup |-> <<>>, excs |-> <<E(id \o "r", p, RP, 1, "", PV(v))>> \o excs, params |-> <<>>, attrs |-> ""]
Sup(d) == [code |-> d.code, name |-> d.name, loc |-> d.loc, act |-> "", tech |-> "", unit |-> "kg", type |-> RP, amt |-> ROne, pv |-> d.excs[1].pv]
Links == {<<>>} \cup {<<E("x", n, TI, 2, l, NoPV)>> : n \in {"p", "q"}, l \in {"", "1", "2", "3"}}
Twice(q) == IF q = <<>> THEN {q} ELSE {q, q \o <<[q[1] EXCEPT !.id = "y"]>>}
A1(q, v) == D("1", "a", TA, "CH", "p", v, q)
A2(q, v) == D("2", "b", TA, "FR", "q", v, q)
Market(d, sups) == [d EXCEPT !.hassup = TRUE, !.sup = sups]
Space == {[fn |-> "actual", db |-> <<A1(x, 3), A2(y, 4), D("3", "a", TA, "GLO", "p", 5, z)>>] : x \in UNION {Twice(q) : q \in Links}, y \in Links, z \in Links}
    \cup {[fn |-> "divided", db |-> LET a == A1(<<>>, v)  b == [A2(<<>>, w) EXCEPT !.refp = "p", !.excs[1].name = "p"]  IN
            <<a, b, Market(D("3", "market for p", MA, "RER", "p", 1, <<>>), CASE k = 1 -> <<Sup(a)>> [] k = 2 -> <<Sup(b)>> [] k = 3 -> <<Sup(a), Sup(b)>> [] OTHER -> <<>>)>>] : v \in {0, 1, 3}, w \in {0, 2}, k \in 0..3}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

Target(db, e) == {j \in 1..Len(db) : db[j].id = e.link /\ db[j].refp = e.name}
Resolve(db, d) == [d EXCEPT !.excs = [k \in 1..Len(@) |-> LET e == d.excs[k] IN IF e.link # "" /\ Cardinality(Target(db, e)) = 1 THEN [e EXCEPT !.code = db[CHOOSE j \in Target(db, e) : TRUE].code] ELSE e]]
Divide(d) == LET total == RSumOver(d.sup, LAMBDA x : x.pv.amt)
                 inputs(q, t) == [k \in 1..Len(q) |-> [E("", d.refp, TI, 1, "", NoPV) EXCEPT !.code = q[k].code, !.amt = IF RSign(t) = 0 THEN ROne ELSE RDiv(q[k].pv.amt, t)]]
             IN IF RSign(total) # 0 THEN [d EXCEPT !.excs = @ \o inputs(Sel(d.sup, LAMBDA x : RSign(x.pv.amt) # 0), total)]
                ELSE IF Len(d.sup) = 1 THEN [d EXCEPT !.excs = @ \o inputs(d.sup, total)] ELSE d
Due(f, s, o) == IF f = "actual" THEN Actual(s, o) ELSE Divided(MA, s, o)
Msg(x) == [code |-> x.code, words |-> SetToSeq(x.words), nums |-> x.nums]

VARIABLES fn, src, db, todo, msgs
vars == <<fn, src, db, todo, msgs>>
Init == \E x \in Space : fn = x.fn /\ src = x.db /\ db = x.db /\ todo = (IF x.fn = "actual" THEN 1..Len(x.db) ELSE {3}) /\ msgs = <<>>
Step(i) == /\ i \in todo /\ todo' = todo \ {i} /\ UNCHANGED <<fn, src>>
           /\ db' = [db EXCEPT ![i] = IF fn = "actual" THEN Resolve(db, @) ELSE Divide(@)]
           (* what is said of this activity, by looking at it alone *)
           /\ LET said == Sel(Due(fn, db, db'), LAMBDA x : x.code = src[i].code) IN msgs' = msgs \o [k \in 1..Len(said) |-> Msg(said[k])]
Next == \E i \in 1..Len(src) : Step(i)
Now == IF fn = "divided" /\ todo # {} THEN <<>> ELSE Due(fn, src, db)
AsDue == AllTold(Now, msgs) /\ NothingElse(Now, msgs)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Noticed == \A i \in 1..Len(msgs) : /\ ~(AllTold(Now, Without(msgs, i)) /\ NothingElse(Now, Without(msgs, i)))
                                   /\ ~NothingElse(Now, Append(msgs, msgs[i]))
                                   /\ ~NothingElse(Now, [msgs EXCEPT ![i].code = "someone else"])
=============================================================================
