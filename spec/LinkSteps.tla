----------------------------- MODULE LinkSteps -----------------------------
(* The linking steps as functions on databases (codes present, one         *)
(* reference product each); ties between equal sizes are broken by CHOOSE. *)
EXTENDS Linking
EmptyPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
Annot(d) == [code |-> d.code, name |-> TheRP(d).name, loc |-> d.loc, act |-> d.name, tech |-> d.tech, unit |-> TheRP(d).unit,
             type |-> RP, amt |-> TheRP(d).amt, pv |-> TheRP(d).pv]
WithSup(d, db, S) == [d EXCEPT !.hassup = TRUE, !.sup = [k \in 1..Cardinality(S) |-> Annot(db[SetToSeq(S)[k]])]]
Input(s, a) == [id |-> "", name |-> s.name, type |-> TI, cls |-> "none", amt |-> a, unit |-> s.unit, link |-> "", code |-> s.code, cond |-> FALSE,
     f |-> "", var |-> "", pv |-> EmptyPV, unc |-> NoUnc, props |-> "", attrs |-> ""]
NewInputs(d) == LET fed == Fed(d.sup) IN
    IF DOMAIN fed = {} THEN <<>>
    ELSE LET q == SetToSeq(DOMAIN fed) IN [k \in 1..Len(q) |-> Input(d.sup[q[k]], RMul(fed[q[k]], TheRP(d).amt))]
SetPV(d, a) == [d EXCEPT !.excs = [k \in 1..Len(d.excs) |-> IF IsRP(d.excs[k]) THEN [d.excs[k] EXCEPT !.pv.amt = a] ELSE d.excs[k]]]

Suppliers1(T, x) == [i \in 1..Len(x) |-> IF x[i].type = MA THEN WithSup(x[i], x, Suppliers(T, x, i)) ELSE x[i]]
Volumes(x) == [i \in 1..Len(x) |-> IF x[i].type = MA THEN SetPV(x[i], MarketPV(x[i])) ELSE x[i]]
Alloc(x, t) == [i \in 1..Len(x) |-> IF x[i].type = t /\ x[i].hassup THEN [x[i] EXCEPT !.excs = @ \o NewInputs(x[i])] ELSE x[i]]
GroupSup(T, x, i) == LET p == x[i].refp  row == RowOf(T, x, p)
                      ls == Greedy(T, Faces(T, x[i].loc), GroupCands(x, i), {}, row)
                  IN {CHOOSE j \in AtLoc(x, p, l) : TRUE : l \in ls}
Groups(T, x) == [i \in 1..Len(x) |-> IF x[i].type = MG /\ GroupSup(T, x, i) # {} THEN WithSup(x[i], x, GroupSup(T, x, i)) ELSE x[i]]
GroupVolumes(x) == [i \in 1..Len(x) |-> IF x[i].type = MG /\ x[i].hassup
    THEN [SetPV(x[i], GroupPV(x, i, 8)) EXCEPT !.sup = [k \in 1..Len(@) |-> [@[k] EXCEPT !.pv.amt = GroupSupPV(x, i, k, 8)]]] ELSE x[i]]
(* consumers: chosen locations, or the smallest one around *)
Link(T, x, i, e) ==
    LET p == e.name  cf == ConsumerFaces(T, x, i)  row == RowOf(T, x, p)
        g == Greedy(T, cf, CandLocs(x, p), {}, row)
        L == IF g # {} THEN g ELSE {CHOOSE l \in Around(T, x, p, cf) : TRUE : k \in (IF Around(T, x, p, cf) = {} THEN {} ELSE {1})}
        pv(l) == PVol(x[CHOOSE j \in AtLoc(x, p, l) : TRUE])
        code(l) == x[CHOOSE j \in AtLoc(x, p, l) : TRUE].code
        tot == RSumSet(L, pv)
        fed == SetToSeq({l \in L : RSign(pv(l)) # 0})
    IN IF L = {} THEN <<e>>
       ELSE IF Cardinality(L) = 1 THEN <<[e EXCEPT !.code = code(CHOOSE l \in L : TRUE)]>>
       ELSE IF RSign(tot) = 0 THEN <<e>>
       ELSE [k \in 1..Len(fed) |-> [e EXCEPT !.code = code(fed[k]), !.amt = RMul(e.amt, RDiv(pv(fed[k]), tot))]]
Consumers(T, x) == [i \in 1..Len(x) |-> IF x[i].type = MG THEN x[i]
    ELSE [x[i] EXCEPT !.excs = FlattenSeq([k \in 1..Len(@) |-> IF Unlinked(@[k]) THEN Link(T, x, i, @[k]) ELSE <<@[k]>>])]]
=============================================================================
