---------------------------- MODULE MC_HardLinks ----------------------------
(* Design check: the order in which links are processed does not matter,   *)
(* volumes never become negative, the whole volume is accounted for.       *)
EXTENDS HardLinks, Json, IOUtils
Deep == IOEnv.TIER = "thorough"

NoPV == [has |-> FALSE, amt |-> NaR, sub |-> NaR, orig |-> NaR, gl |-> NaR, tot |-> NaR, var |-> "", f |-> "", attrs |-> ""]
PV(a) == [NoPV EXCEPT !.has = TRUE, !.amt = RInt(a)]
E(id, name, type, cls, amt, link, pv) ==
    [id |-> id, name |-> name, type |-> type, cls |-> cls, amt |-> RInt(amt), unit |-> "kg", link |-> link, code |-> "", cond |-> FALSE,
     f |-> "", var |-> "", pv |-> pv, unc |-> NoUnc, props |-> "", attrs |-> ""]
D(id, type, parent, excs) == [id |-> id, name |-> id, type |-> type, loc |-> "GLO", parent |-> parent, code |-> "", refp |-> "",
    tech |-> "", hassup |-> FALSE, sup |-> <<>>, excs |-> excs, params |-> <<>>, attrs |-> ""]

(* a: target with product x and possibly by-product y; b, c: linking       *)
Target(t, v, bp) == D("a", t, "", <<E("a1", "x", RP, ALLOC, 2, "", PV(v))>> \o
    (CASE bp = "y" -> <<E("a2", "y", BP, ALLOC, 3, "", PV(0))>>
       [] bp = "x" -> <<E("a2", "x", BP, ALLOC, 1, "", PV(4))>>
       [] bp = "w" -> <<E("a2", "x", BP, "waste", 1, "", PV(4))>>
       [] OTHER -> <<>>))
LinkAmts == IF Deep THEN {-1, 0, 1, 4} ELSE {-1, 0, 4}
Linker(id, rpamt, amt, name, to, type) == D(id, TA, IF id = "c" THEN "a" ELSE "",
    <<E(id \o "1", id, RP, ALLOC, rpamt, "", PV(6)), E(id \o "2", name, type, "none", amt, to, IF type = RP THEN PV(2) ELSE NoPV)>>)
Space == {<<Target(t, v, bp), Linker("b", r, a1, n, to, TI), Linker("c", 3, a2, "x", "a", ty)>> :
    t \in {TA, MA}, v \in {0, 30}, bp \in {"", "x", "y", "w"}, r \in {-2, 1}, a1 \in LinkAmts, a2 \in {0, 1, 4},
    n \in {"x", "y"}, to \in {"a", "b", "zz", "25edb027-d7c0-4756-a051-cab82e4f6248"}, ty \in {TI, RP}}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES db, src, phase, todo
vars == <<db, src, phase, todo>>
Init == db \in Space /\ src = db /\ phase = "raw" /\ todo = {}
Clean == phase = "raw" /\ db' = Fix35(ParentChild(DropZero(DropRP(db)))) /\ phase' = "clean" /\ UNCHANGED <<src, todo>>
AllLinks(x) == {<<i, k>> : i \in 1..Len(x), k \in 1..2} \cap {h \in (1..3) \X (1..2) : h[2] <= Len(x[h[1]].excs) /\ Foreign(x, h[1], h[2])}
Check == /\ phase = "clean"
         /\ IF ValidLinks(db) THEN phase' = "valid" /\ todo' = AllLinks(db) ELSE phase' = "rejected" /\ UNCHANGED todo
         /\ UNCHANGED <<db, src>>
(* one link at a time, in any order *)
Subtract(h) == /\ phase = "valid" /\ h \in todo /\ todo' = todo \ {h}
               /\ LET t == CHOOSE i \in ById(db, db[h[1]].excs[h[2]].link) : TRUE
                      p == CHOOSE k \in 1..Len(db[t].excs) : IsProd(db[t].excs[k]) /\ db[t].excs[k].name = db[h[1]].excs[h[2]].name
                      old == db[t].excs[p].pv.sub
                  IN db' = [db EXCEPT ![t].excs[p].pv.sub = RAdd(IF IsNum(old) THEN old ELSE RZero, LinkVolume(db, h))]
               /\ UNCHANGED <<src, phase>>
Update == /\ phase = "valid" /\ todo = {} /\ phase' = "done"
          /\ db' = MapExcs(db, LAMBDA d, e : IF d.type = TA /\ IsProd(e) /\ IsNum(e.pv.sub)
                THEN [e EXCEPT !.pv.orig = e.pv.amt, !.pv.amt = RMax(RSub(e.pv.amt, e.pv.sub), RZero)] ELSE e)
          /\ UNCHANGED <<src, todo>>
Next == Clean \/ Check \/ (\E h \in (1..3) \X (1..2) : Subtract(h)) \/ Update \/ (phase \in {"done", "rejected"} /\ UNCHANGED vars)

Cleaned == Fix35(ParentChild(DropZero(DropRP(src))))
Confluent == phase = "done" => db = Manage(Cleaned)
NonNegative == phase = "done" => \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) :
    IsProd(db[i].excs[k]) => RSign(db[i].excs[k].pv.amt) >= 0
MarketsKept == phase = "done" => \A i \in 1..Len(db) : db[i].type = MA => \A k \in 1..Len(db[i].excs) : db[i].excs[k].pv.amt = src[i].excs[k].pv.amt
NoParentLink == phase = "done" => \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) :
    db[i].parent # "" /\ ~IsProd(db[i].excs[k]) => db[i].excs[k].link # db[i].parent
RejectedUntouched == phase = "rejected" => db = Cleaned
Idempotent == phase = "clean" => DropZero(DropRP(db)) = db /\ ParentChild(db) = db
=============================================================================
