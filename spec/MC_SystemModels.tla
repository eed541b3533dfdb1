-------------------------- MODULE MC_SystemModels --------------------------
(* Design check of the cut-off and consequential steps: one object at a    *)
(* time, in any order, always ends in the state the operators describe.    *)
EXTENDS SystemModels, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, cls, amt, link, cond) ==
    [id |-> id, name |-> name, type |-> type, cls |-> cls, amt |-> RInt(amt), unit |-> "kg", link |-> link, code |-> "", cond |-> cond,
     f |-> "", fv |-> NaR, var |-> "", pv |-> IF type \in {RP, BP} THEN PV(4) ELSE NoPV, unc |-> NoUnc, props |-> "", attrs |-> ""]
D(id, type, tech, sup, excs) == [id |-> id, name |-> "act " \o id, type |-> type, loc |-> "GLO", parent |-> "", code |-> "", refp |-> excs[1].name,
    tech |-> tech, hassup |-> sup # <<>>, sup |-> sup, excs |-> excs, params |-> <<>>, attrs |-> ""]
S(code, tech) == [code |-> code, name |-> "x", loc |-> "GLO", act |-> "", tech |-> tech, unit |-> "kg", type |-> "", amt |-> NaR, pv |-> PV(1)]
Classes == {ALLOC, Waste, Recyclable}

(* cut-off: two activities with by-products x or y of any class *)
BPs == {<<>>} \cup {<<E("b", n, BP, c, 2, "", FALSE)>> : n \in {"x", "y"}, c \in Classes}
             \cup {<<E("b", n, BP, c, -1, "", FALSE), E("c", m, BP, k, 3, "", FALSE)>> :
                      n \in {"x"}, c \in Classes, m \in {"x", "y"}, k \in (IF Deep THEN Classes ELSE {Recyclable, Waste})}
WSpace == {<<D("1", TA, "current", <<>>, <<E("r", "p", RP, c, 1, "", FALSE)>> \o b1), D("2", TA, "current", <<>>, b2 \o <<E("s", "q", RP, ALLOC, 1, "", FALSE)>>)>> :
              c \in (IF Deep THEN Classes ELSE {ALLOC}), b1 \in BPs, b2 \in BPs \cup {<<E("i", "x", TI, "none", 4, "", FALSE)>>}}
(* market signs *)
Amts == {-2, 0, 3}
GSpace == {<<D("1", t, "current", <<>>, <<E("r", "p", RP, c, a, "", FALSE), E("i", n, TI, "none", b, "", FALSE), E("j", "z", TI, "none", d, "", FALSE)>>)>> :
              t \in {TA, MA, MG}, c \in Classes, a \in Amts, n \in {"p", "q"}, b \in Amts, d \in Amts}
(* constrained markets: two markets and two targets, and an ordinary link *)
QSpace == {<<D("m", MA, "current", <<>>, <<E("m1", "g", RP, ALLOC, 1, "", FALSE), E("m2", "x", BP, ALLOC, -2, t1, TRUE)>>),
             D("n", MA, "current", <<>>, <<E("n1", "h", RP, ALLOC, 1, "", FALSE)>> \o (IF t2 = "" THEN <<>> ELSE <<E("n2", "y", BP, ALLOC, -3, t2, TRUE)>>)),
             D("a", TA, "current", <<>>, <<E("a1", "p", RP, c, 1, "", FALSE), E("a2", xa, TI, "none", 4, "", FALSE), E("a3", "o", TI, "none", 5, l, FALSE)>>),
             D("b", TA, "current", <<>>, <<E("b1", "q", RP, ALLOC, 1, "", FALSE), E("b2", xb, TI, "none", 6, "a", FALSE)>>)>> :
              t1 \in {"a", "zz"}, t2 \in {"", "b"}, c \in Classes, xa \in {"x", "o"}, xb \in {"x", "y"}, l \in {"", "b", "n"}}
(* technology levels *)
Lv == {"new", "modern", "current", "old", "outdated", "undefined"}
Sups == {<<>>} \cup {<<S("1", u)>> : u \in Lv} \cup {<<S("1", u), S("2", v)>> : u, v \in Lv} \cup
        {<<S("1", u), S("2", v), S("3", w)>> : u, v, w \in (IF Deep THEN Lv ELSE Lv \ {"new", "modern"})}
TSpace == {<<D("m", t, "current", s, <<E("m1", "g", RP, ALLOC, 1, "", FALSE)>>), D("a", TA, l, <<>>, <<E("a1", "p", RP, ALLOC, 1, "", FALSE), E("a2", b, BP, ALLOC, 1, "", FALSE)>>)>> :
              t \in {MA, MG, TA}, s \in Sups, l \in {"undefined", "old"}, b \in {"g", "z"}}
Space == CASE Prop = "W01" -> WSpace [] Prop = "W02" -> WSpace \cup GSpace [] Prop = "Q01" -> QSpace [] Prop = "Q02" -> TSpace
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES db, src, phase
vars == <<db, src, phase>>
Init == db \in Space /\ src = db /\ phase = "raw"
Hs(x) == {h \in (1..Len(x)) \X (1..3) : h[2] <= Len(x[h[1]].excs)}
Set(x, h, e) == [x EXCEPT ![h[1]].excs[h[2]] = e]
At(x, h) == x[h[1]].excs[h[2]]
To(x, p) == db' = x /\ phase' = p /\ UNCHANGED src

(* W01: rename one by one, add one source per product, strip *)
Rename == phase = "raw" /\ Prop = "W01" /\ \E h \in Hs(db) : IsRecyclable(At(db, h)) /\ ~EndsRC(At(db, h).name) /\
    To(Set(db, h, [At(db, h) EXCEPT !.name = @ \o RCS]), "raw")
Renamed == phase = "raw" /\ Prop = "W01" /\ (\A h \in Hs(db) : IsRecyclable(At(db, h)) => EndsRC(At(db, h).name)) /\ To(db, "sources")
Source(p) == [D("new " \o p, TA, "current", <<>>, <<E("new", p, RP, "none", 1, "", FALSE)>>) EXCEPT !.name = p]
AddOne == phase = "sources" /\ \E p \in RCProducts(db) : (\A i \in 1..Len(db) : ~FreeSource(db[i], p)) /\ To(Append(db, Source(p)), "sources")
Sourced == phase = "sources" /\ (\A p \in RCProducts(db) : \E i \in 1..Len(db) : FreeSource(db[i], p)) /\ To(db, "sourced")
Strip == phase = "sourced" /\ To(StripNames(db), "stripped")
W01Same == phase = "sourced" => SubSeq(db, 1, Len(src)) = RenameRC(src) /\ Len(db) = Len(src) + Cardinality(RCProducts(RenameRC(src)))
(* each cut-off by-product has exactly one producer under its new name *)
W01Balanced == phase = "sourced" => \A p \in RCProducts(db) : Cardinality({i \in 1..Len(db) : \E k \in 1..Len(db[i].excs) : IsRP(db[i].excs[k]) /\ db[i].excs[k].name = p}) = 1
W01Restored == phase = "stripped" => SubSeq(db, 1, Len(src)) = src /\ \A i \in Len(src) + 1..Len(db) : EndsRC(db[i].name) /\ ~EndsRC(db[i].refp)

(* W02 *)
Flip == phase = "raw" /\ Prop = "W02" /\ \E h \in Hs(db) : IsFlipped(At(db, h)) /\ To(Set(db, h, Flipped(At(db, h))), "raw")
FlipDone == phase = "raw" /\ Prop = "W02" /\ (\A h \in Hs(db) : ~IsFlipped(At(db, h))) /\ To(db, "flipped")
Signs == phase = "flipped" /\ To([i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = [k \in 1..Len(@) |-> IF k \in Negated(db[i]) THEN Opp(@[k]) ELSE @[k]]]], "signed")
(* outputs count positive, inputs negative: flipping changes no balance *)
Net(e) == IF e.type = TI THEN RNeg(e.amt) ELSE e.amt
W02Flipped == phase = "flipped" => db = FlipOutputs(src)
W02Balance == phase \in {"raw", "flipped"} => \A h \in Hs(db) : Net(At(db, h)) = Net(At(src, h))
W02Signs == phase = "signed" => \A i \in 1..Len(db) : NonWasteMarket(db[i]) => RSign(OneRP(db[i]).amt) >= 0
W02Stable == phase = "signed" => \A i \in 1..Len(db) : NonWasteMarket(db[i]) /\ RSign(OneRP(db[i]).amt) > 0 => Negated(db[i]) = {}

(* Q01: links first, then the constrained exchanges in any order *)
Drop == phase = "raw" /\ Prop = "Q01" /\ To(DropLinks(db), "dropped")
Open(x) == {h \in Conds(x) : At(x, h).type # TI}
Posed == AllPosed(src, Conds(src))
Swap == phase = "dropped" /\ Posed /\ \E h \in Open(db) : To(SwapRoles(db, h), "dropped")
SwapDone == phase = "dropped" /\ Posed /\ Open(db) = {} /\ To(db, "swapped")
Q01Confluent == phase = "swapped" => db = SwapAll(DropLinks(src), Conds(src))
Q01Magnitudes == Prop = "Q01" => \A h \in Hs(src) : RAbs(At(db, h).amt) = RAbs(At(src, h).amt)
Q01OneProduct == phase = "swapped" => \A i \in 1..Len(db) : Len(RPsOf(db[i])) = 1
Q01Produced == phase = "swapped" => \A h \in Conds(db) : OneRP(db[TargetOf(db, h)]).name = At(db, h).name
Q01NoLinks == phase \in {"dropped", "swapped"} => \A h \in Hs(db) : At(db, h).link \in Targets(db) => At(db, h).cond

(* Q02: drop suppliers one at a time while a better one exists *)
Worse(sup, k) == \E j \in 1..Len(sup) : \E l, m \in 1..6 : l < m /\ (Levels \o <<"undefined">>)[l] = sup[j].tech /\ (Levels \o <<"undefined">>)[m] = sup[k].tech
Prune == phase = "raw" /\ Prop = "Q02" /\ \E i \in 1..Len(db) : NeedsPruning(db[i]) /\ \E k \in 1..Len(db[i].sup) :
    Worse(db[i].sup, k) /\ To([db EXCEPT ![i].sup = RemoveAt(@, k)], "raw")
PruneDone == phase = "raw" /\ Prop = "Q02" /\ (\A i \in 1..Len(db) : NeedsPruning(db[i]) => \A k \in 1..Len(db[i].sup) : ~Worse(db[i].sup, k)) /\ To(db, "pruned")
Q02Same == phase = "pruned" => \A i \in 1..Len(db) : IF NeedsPruning(src[i]) /\ Known(src[i].sup) # {} THEN db[i].sup = Pruned(src[i].sup) ELSE NeedsPruning(src[i]) \/ db[i] = src[i]
Q02NonEmpty == \A i \in 1..Len(db) : i <= Len(src) /\ src[i].sup # <<>> => db[i].sup # <<>>
Q02Once == phase = "pruned" => \A i \in 1..Len(db) : NeedsPruning(db[i]) /\ Known(db[i].sup) # {} => Pruned(db[i].sup) = db[i].sup

Next == Rename \/ Renamed \/ AddOne \/ Sourced \/ Strip \/ Flip \/ FlipDone \/ Signs \/ Drop \/ Swap \/ SwapDone \/ Prune \/ PruneDone
=============================================================================
