------------------------------- MODULE Details -------------------------------
(* R02: what the detailed log must tell about a change.  A message is about *)
(* one activity (its code) and has words (names, places, labels) and        *)
(* numbers.  Due(...): one [code, words, nums] for each thing done between  *)
(* a database s and the database o it became (same order, same activities). *)
EXTENDS Db
Say(code, words, nums) == [code |-> code, words |-> words, nums |-> nums]
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)
Each(db, f(_)) == Flat([i \in 1..Len(db) |-> f(i)], 1)
Excs(d, f(_)) == Flat([k \in 1..Len(d.excs) |-> f(k)], 1)
By(db, code) == db[CHOOSE j \in 1..Len(db) : db[j].code = code]
Known(db, code) == \E j \in 1..Len(db) : db[j].code = code
Own(d) == d.excs[CHOOSE k \in 1..Len(d.excs) : d.excs[k].type = RP]
Producing(e) == IsProd(e)

(* hard links become references: who is linked, and where it is *)
Actual(s, o) == Each(o, LAMBDA i : Excs(o[i], LAMBDA k : LET e == o[i].excs[k] IN
    IF e.code # s[i].excs[k].code /\ Known(o, e.code) THEN <<Say(o[i].code, {e.name, By(o, e.code).name, By(o, e.code).loc}, <<>>)>> ELSE <<>>))
(* the label each activity got *)
Labels(s, o) == Each(o, LAMBDA i : <<Say(o[i].code, {o[i].label}, <<>>)>>)
(* global activities moved: their volume then and now *)
Moved(s, o) == Each(o, LAMBDA i : IF s[i].loc = o[i].loc THEN <<>> ELSE <<Say(o[i].code, {o[i].name, Own(o[i]).unit}, <<Own(o[i]).pv.amt, Own(s[i]).pv.amt>>)>>)
(* hard-linked volumes: the linked activity is told who takes from it *)
Hard(s, o) == Each(s, LAMBDA i : Excs(s[i], LAMBDA k : LET e == s[i].excs[k] IN
    IF e.link = "" THEN <<>>
    ELSE IF e.link = s[i].id THEN <<Say(s[i].code, {}, <<e.amt>>)>>
    ELSE LET t == s[CHOOSE j \in 1..Len(s) : s[j].id = e.link]
             p == t.excs[CHOOSE m \in 1..Len(t.excs) : Producing(t.excs[m]) /\ t.excs[m].name = e.name]
         IN <<Say(t.code, {s[i].name, s[i].loc}, <<p.pv.amt>>)>>))
Shrunk(s, o) == Each(s, LAMBDA i : IF s[i].type # TA THEN <<>> ELSE Excs(s[i], LAMBDA k : LET e == s[i].excs[k] IN
    IF Producing(e) /\ IsNum(e.pv.sub) THEN <<Say(s[i].code, {}, <<e.pv.sub, e.pv.amt>>)>> ELSE <<>>))
(* an input made for a share of a supplier *)
Share(d, e, t) == Say(d.code, {e.name, t.loc, e.unit}, <<e.amt>>)
(* markets divide what their suppliers make *)
Divided(kind, s, o) == Each(o, LAMBDA i : IF o[i].type # kind \/ s[i].sup = <<>> THEN <<>> ELSE
    LET q == s[i].sup  total == RSumOver(q, LAMBDA x : x.pv.amt)  p == Own(s[i]).name
        new == Sel(o[i].excs, LAMBDA e : e.id = "")
        shares == [k \in 1..Len(new) |-> LET t == q[CHOOSE j \in 1..Len(q) : q[j].code = new[k].code] IN Say(o[i].code, {p, t.name, t.loc, t.unit}, <<new[k].amt>>)]
    IN IF RSign(total) # 0 THEN <<Say(o[i].code, {p}, <<total, RInt(Len(q))>>)>> \o shares
       ELSE IF Len(q) = 1 THEN <<Say(o[i].code, {s[i].name, s[i].refp, s[i].loc, q[1].name, q[1].loc}, <<>>)>> \o shares
       ELSE <<>>)
(* consumers: an input goes to one market as a whole, or is divided         *)
Consumers(s, o) == Each(s, LAMBDA i : Excs(s[i], LAMBDA k : LET e == s[i].excs[k]
        new == Sel(o[i].excs, LAMBDA x : x.id = e.id /\ x.code # "")
        to(j) == By(o, new[j].code)
    IN IF e.type # TI \/ e.code # "" \/ new = <<>> THEN <<>>
       ELSE IF Len(new) = 1 THEN <<Say(s[i].code, {e.name, to(1).name, to(1).loc}, <<e.amt>>)>>
       ELSE <<Say(s[i].code, {e.name}, <<RSumOver([j \in 1..Len(new) |-> to(j)], LAMBDA m : Own(m).pv.amt), RInt(Len(new))>>)>>
            \o [j \in 1..Len(new) |-> Say(s[i].code, {e.name, to(j).loc}, <<>>)]
            \o [j \in 1..Len(new) |-> Share(s[i], new[j], to(j))]))

(* numbers are written with few digits *)
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(<<1, 500>>, RAbs(b)))
Tells(m, x) == m.code = x.code /\ x.words \subseteq {m.words[k] : k \in 1..Len(m.words)} /\ \A n \in 1..Len(x.nums) : \E k \in 1..Len(m.nums) : Near(m.nums[k], x.nums[n])
SameDue(a, b) == a.code = b.code /\ a.words = b.words /\ Len(a.nums) = Len(b.nums) /\ \A n \in 1..Len(a.nums) : REq(a.nums[n], b.nums[n])
(* every thing done is told as often as it was done, and nothing else is    *)
AllTold(due, msgs) == \A i \in 1..Len(due) : Cardinality({k \in 1..Len(msgs) : Tells(msgs[k], due[i])}) >= Cardinality({j \in 1..Len(due) : SameDue(due[i], due[j])})
NothingElse(due, msgs) == Len(msgs) = Len(due) /\ \A k \in 1..Len(msgs) : \E i \in 1..Len(due) : Tells(msgs[k], due[i])
=============================================================================
