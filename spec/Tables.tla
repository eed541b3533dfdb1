------------------------------- MODULE Tables -------------------------------
(* R01: the rows of a transformation's report table follow from what it    *)
(* did.  Each operator gives the rows due to a database before (s) and     *)
(* after (o); datasets are paired by id (or place), exchanges by id.       *)
(* A row is a sequence of cells [t: text, n: number].                      *)
EXTENDS Db
T(x) == [t |-> x, n |-> NaR]
N(x) == [t |-> "", n |-> x]
CellSame(a, b) == a.t = b.t /\ RSame(a.n, b.n)
RowSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CellSame(a[i], b[i])
Often(row, q) == Cardinality({i \in 1..Len(q) : RowSame(q[i], row)})
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Often(a[i], a) = Often(a[i], b)
Amid(a, b) == \A i \in 1..Len(a) : Often(a[i], a) <= Often(a[i], b)

Has(q, id) == \E i \in 1..Len(q) : q[i].id = id
Get(q, id) == q[CHOOSE i \in 1..Len(q) : q[i].id = id]
Gone == [id |-> ""]
Now(o, d) == IF Has(o, d.id) THEN Get(o, d.id) ELSE Gone
(* rows of all (dataset, exchange) before whose counterpart fits P         *)
OfExcs(s, o, P(_, _), row(_, _, _)) == FlattenSeq([i \in 1..Len(s) |-> IF ~Has(o, s[i].id) THEN <<>> ELSE
    LET d == s[i]  x == Get(o, d.id).excs  q == Sel(d.excs, LAMBDA e : Has(x, e.id) /\ P(e, Get(x, e.id))) IN [k \in 1..Len(q) |-> row(d, q[k], Get(x, q[k].id))]])
LostExcs(s, o, row(_, _)) == FlattenSeq([i \in 1..Len(s) |-> IF ~Has(o, s[i].id) THEN <<>> ELSE
    LET d == s[i]  x == Get(o, d.id).excs  q == Sel(d.excs, LAMBDA e : ~Has(x, e.id)) IN [k \in 1..Len(q) |-> row(d, q[k])]])
OfDs(s, o, P(_, _), row(_, _)) == LET q == Sel(s, LAMBDA d : P(d, Now(o, d))) IN [i \in 1..Len(q) |-> row(q[i], Now(o, q[i]))]
Place(o, code) == LET i == CHOOSE i \in 1..Len(o) : o[i].code = code IN o[i]
Made(o, code) == \E i \in 1..Len(o) : o[i].code = code

(* ---- exchanges -----------------------------------------------------------*)
Unlinked(s, o) == OfExcs(s, o, LAMBDA e, x : e.link # "" /\ x.link = "", LAMBDA d, e, x : <<T(d.name), T(e.name)>>)
Freed(s, o) == OfExcs(s, o, LAMBDA e, x : e.link # "" /\ x.link = "", LAMBDA d, e, x : <<T(d.name), T(d.loc), T(e.name), N(e.amt)>>)
Removed(s, o) == LostExcs(s, o, LAMBDA d, e : <<T(d.name), T(e.name), N(e.amt)>>)
Relinked(s, o) == OfExcs(s, o, LAMBDA e, x : e.link # x.link, LAMBDA d, e, x : <<T(d.name), T(d.loc), N(e.amt)>>)
Shifted(s, o) == OfExcs(s, o, LAMBDA e, x : e.pv.var # "" /\ x.pv.var = "", LAMBDA d, e, x : <<T(d.name), T("Shifted PV parameter: " \o e.pv.var), N(e.pv.amt)>>)
Supplied(s, o) == OfExcs(s, o, LAMBDA e, x : ~RSame(e.pv.amt, x.pv.amt), LAMBDA d, e, x : <<T(d.name), T(e.name), N(x.pv.amt)>>)
Zeroed(s, o) == OfExcs(s, o, LAMBDA e, x : e.type # x.type, LAMBDA d, e, x : <<T(d.name), T(e.name)>>)
Flipped(s, o) == OfExcs(s, o, LAMBDA e, x : e.type # x.type, LAMBDA d, e, x : <<T(d.name), T(e.name), T(e.cls)>>)
Renamed(s, o) == OfExcs(s, o, LAMBDA e, x : e.name # x.name, LAMBDA d, e, x : <<T(d.name), T(x.name), T(x.type), T(d.loc)>>)
    \o OfDs(s, o, LAMBDA d, x : d.refp # x.refp, LAMBDA d, x : <<T(d.name), T(x.refp), T("RP label"), T(d.loc)>>)
Coded(s, o) == OfExcs(s, o, LAMBDA e, x : e.code = "" /\ x.code # "" /\ Made(o, x.code), LAMBDA d, e, x : <<T(d.name), T(e.name), T(d.loc), T(Place(o, x.code).name)>>)
Dangling(s, o) == OfExcs(s, o, LAMBDA e, x : e.link # "" /\ x.code = "", LAMBDA d, e, x : <<T(e.link), T(e.name), N(e.amt)>>)
(* inputs that became several, one row for each *)
Split(s, o) == FlattenSeq([i \in 1..Len(s) |-> FlattenSeq([k \in 1..Len(s[i].excs) |->
    LET d == s[i]  e == d.excs[k]  q == Sel(Now(o, d).excs, LAMBDA x : x.id = e.id) IN
    IF Len(q) < 2 THEN <<>> ELSE [j \in 1..Len(q) |-> <<T(d.name), T(d.loc), T(IF Made(o, q[j].code) THEN Place(o, q[j].code).loc ELSE "?")>>]])])
(* a constrained market's exchange turns the linked activity around *)
Turned(s, o) == OfExcs(s, o, LAMBDA e, x : e.cond, LAMBDA d, e, x :
    <<T(e.name), T(Get(s, e.link).name), T(Get(s, e.link).loc), T(RPsOf(Get(s, e.link))[1].name)>>)

(* ---- datasets ------------------------------------------------------------*)
Moved(s, o) == OfDs(s, o, LAMBDA d, x : d.loc # x.loc, LAMBDA d, x : <<T(d.name)>> \o
    LET q == SetToSortSeq({k \in 1..Len(d.excs) : IsProd(d.excs[k]) /\ ~IsZero(d.excs[k].amt)}, LAMBDA a, b : a < b) IN [j \in 1..Len(q) |-> T(d.excs[q[j]].name)])
(* product names come in any order *)
MovedSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    LET like(r, q) == r[1] = q[1] /\ Len(r) = Len(q) /\ {r[k] : k \in 2..Len(r)} = {q[k] : k \in 2..Len(q)}
        n(q) == Cardinality({j \in 1..Len(q) : like(a[i], q[j])}) IN n(a) = n(b)
Signed(s, o) == OfDs(s, o, LAMBDA d, x : \E k \in 1..Len(d.excs) : ~RSame(d.excs[k].amt, x.excs[k].amt), LAMBDA d, x : <<T(d.name), T(d.loc)>>)
Scaled(s, o) == OfDs(s, o, LAMBDA d, x : \E k \in 1..Len(d.excs) : ~RSame(d.excs[k].amt, x.excs[k].amt), LAMBDA d, x : <<T(d.name), T(RPsOf(d)[1].name), N(RDiv(RPsOf(x)[1].amt, RPsOf(d)[1].amt))>>)
Added(s, o) == [i \in 1..(Len(o) - Len(s)) |-> <<T(o[Len(s) + i].name)>>]
Dropped(s, o) == OfDs(s, o, LAMBDA d, x : x = Gone, LAMBDA d, x : <<T(d.name), T(d.refp), T(d.loc)>>)
Levelled(s, o) == OfDs(s, o, LAMBDA d, x : d.tech # x.tech, LAMBDA d, x : <<T(d.name), T(d.refp), T(d.loc)>>)
(* the volumes of markets of a type *)
Missing(d) == RSumOver(d.sup, LAMBDA x : IF IsNum(x.pv.sub) THEN x.pv.sub ELSE RZero)
Volumes(type, s, o) == OfDs(s, o, LAMBDA d, x : d.type = type, LAMBDA d, x : LET p == RPsOf(x)[1] IN
    <<T(d.name), T(p.name), T(d.loc), N(p.pv.tot), N(Missing(d)), N(IF IsNum(p.pv.sub) THEN p.pv.sub ELSE RZero), N(p.pv.amt)>>)
Suppliers(o) == FlattenSeq([i \in 1..Len(o) |-> IF o[i].type # MG THEN <<>> ELSE [k \in 1..Len(o[i].sup) |-> <<T(o[i].name), T(o[i].loc), T(o[i].sup[k].loc)>>]])
(* one dataset for each product, from one activity *)
Parts(s, o) == [i \in 1..Len(o) |-> <<T(s[1].name), T(RPsOf(o[i])[1].name), T(s[1].loc)>>]
(* each label given to some dataset, with the number of them; others have zero *)
Counted(o, rows) == (\A i \in 1..Len(rows) : Len(rows[i]) = 2 /\ REq(rows[i][2].n, RInt(CountOf(o, LAMBDA d : d.label = rows[i][1].t)))
                     /\ \A j \in 1..Len(rows) : j # i => rows[j][1] # rows[i][1])
                    /\ \A i \in 1..Len(o) : \E j \in 1..Len(rows) : rows[j][1].t = o[i].label
(* products for which both levels are present, with the number of activities *)
Mixed(s) == LET acts == Sel(s, LAMBDA d : d.type = TA)
                both(p) == \A lv \in {"undefined", "current"} : \E i \in 1..Len(acts) : acts[i].refp = p /\ acts[i].tech = lv
                q == SetToSeq({p \in {acts[i].refp : i \in 1..Len(acts)} : both(p)})
            IN [i \in 1..Len(q) |-> <<T(q[i]), N(RInt(CountOf(acts, LAMBDA d : d.refp = q[i])))>>]

(* ---- formulas: slots [var, f, words, dense], in one order before and after*)
OfSlots(s, o, P(_, _), row(_, _, _)) == FlattenSeq([i \in 1..Len(s) |-> LET a == s[i].slots  b == o[i].slots  q == SetToSortSeq({k \in 1..Len(a) : P(a[k], b[k])}, LAMBDA x, y : x < y) IN
    [j \in 1..Len(q) |-> row(s[i], a[q[j]], b[q[j]])]])
Cut(s, o) == OfSlots(s, o, LAMBDA a, b : a.f # "" /\ b.f = "", LAMBDA d, a, b : <<T(d.name), T(a.dense)>>)
Capital(s, o) == OfSlots(s, o, LAMBDA a, b : a.var # b.var, LAMBDA d, a, b : <<T(d.name), T(a.var), T(a.var)>>)
(* words replaced in a formula; the row has them one by one before the text *)
Spelt(s, o) == OfSlots(s, o, LAMBDA a, b : a.f # b.f, LAMBDA d, a, b :
    <<T(d.name)>> \o (LET w == SetToSeq({a.words[k] : k \in {k \in 1..Len(a.words) : a.words[k] # b.words[k]}}) IN [k \in 1..Len(w) |-> T(w[k])]) \o <<T(a.f)>>)
SpeltSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    LET like(r, q) == r[1] = q[1] /\ r[Len(r)] = q[Len(q)] /\ {r[k] : k \in 2..(Len(r) - 1)} = {q[k] : k \in 2..(Len(q) - 1)}
        n(q) == Cardinality({j \in 1..Len(q) : like(a[i], q[j])}) IN n(a) = n(b)
(* references [k = 1, t] in the pieces of a formula: the row names what replaced them *)
Named(rows, d, t, w) == Often(<<T(d.name), T(t), T(w)>>, rows) > 0
Resolved(s, o, rows) ==
    /\ \A i \in 1..Len(s) : \A k \in 1..Len(s[i].slots) : LET a == s[i].slots[k]  b == o[i].slots[k]
            cands(t) == {rows[j][3].t : j \in {j \in 1..Len(rows) : rows[j][1] = T(s[i].name) /\ rows[j][2] = T(t)}}
        IN \A j \in 1..Len(a.pieces) : a.pieces[j].k = 1 => \E w \in cands(a.pieces[j].t) : w = b.pieces[j].t
    /\ \A r \in 1..Len(rows) : Len(rows[r]) = 3 /\ \E i \in 1..Len(s) : s[i].name = rows[r][1].t /\ \E k \in 1..Len(s[i].slots) :
            LET a == s[i].slots[k]  b == o[i].slots[k] IN \E j \in 1..Len(a.pieces) : a.pieces[j].k = 1 /\ a.pieces[j].t = rows[r][2].t /\ b.pieces[j].t = rows[r][3].t
(* a dataset whose formulas have no value: a name that is not there, or a circle *)
Needs(d) == [v \in {d.slots[k].var : k \in 1..Len(d.slots)} \ {""} |-> UNION {Range(d.slots[k].words) : k \in {k \in 1..Len(d.slots) : d.slots[k].var = v}}]
RECURSIVE Reach(_, _)
Reach(g, S) == LET n == S \cup UNION {g[v] : v \in S \cap DOMAIN g} IN IF n = S THEN S ELSE Reach(g, n)
Failing(d) == LET g == Needs(d) IN (\E k \in 1..Len(d.slots) : ~(Range(d.slots[k].words) \subseteq DOMAIN g)) \/ \E v \in DOMAIN g : v \in Reach(g, g[v])
Failed(s) == LET q == Sel(s, Failing) IN [i \in 1..Len(q) |-> <<T(q[i].name), T(q[i].refp), T(q[i].loc)>>]
=============================================================================
