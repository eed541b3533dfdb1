--------------------------------- MODULE Db ---------------------------------
(* Whole databases: sequences of datasets as recorded by drivers/dbproj.py.*)
(* dataset  [id, name, type, loc, parent, code, refp, tech, hassup, sup,   *)
(*           excs, params, attrs]                                          *)
(* exchange [id, name, type, cls, amt, unit, link, code, cond, f, var, pv, *)
(*           unc, props, attrs];  missing text is "", missing number NaR   *)
(* volume   [has, amt, sub, orig, gl, tot, var, f, attrs]                  *)
EXTENDS Rat, Uncertainty, SequencesExt, FiniteSets, FiniteSetsExt, TLC

RP == "reference product"
BP == "byproduct"
TI == "from technosphere"
ALLOC == "allocatable product"
TA == "transforming activity"
MA == "market activity"
MG == "market group"

Sel(q, P(_)) == SelectSeq(q, P)
IsRP(e) == e.type = RP
IsAllocBP(e) == e.type = BP /\ e.cls = ALLOC
IsProd(e) == IsRP(e) \/ IsAllocBP(e)
IsZero(a) == IsNum(a) /\ RSign(a) = 0
RPsOf(d) == Sel(d.excs, IsRP)
ProdOf(d) == Sel(d.excs, IsProd)
IdxOf(q, P(_)) == {i \in 1..Len(q) : P(q[i])}
CountOf(q, P(_)) == Cardinality(IdxOf(q, P))

SamePV(a, b) == /\ a.has = b.has /\ a.var = b.var /\ a.f = b.f /\ a.attrs = b.attrs
                /\ RSame(a.amt, b.amt) /\ RSame(a.sub, b.sub) /\ RSame(a.orig, b.orig) /\ RSame(a.gl, b.gl) /\ RSame(a.tot, b.tot)
(* equality of exchanges except for the named fields *)
ExcFields == {"id", "name", "type", "cls", "unit", "link", "code", "cond", "f", "var", "props", "attrs"}
SameExcBut(a, b, but) ==
    /\ \A k \in ExcFields \ but : a[k] = b[k]
    /\ ("amt" \in but \/ RSame(a.amt, b.amt))
    /\ ("pv" \in but \/ SamePV(a.pv, b.pv))
    /\ ("unc" \in but \/ SameUnc(a.unc, b.unc))
SameExcs(a, b, but) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameExcBut(a[i], b[i], but)
SameSup(a, b) == /\ a.code = b.code /\ a.name = b.name /\ a.loc = b.loc /\ a.act = b.act /\ a.tech = b.tech
                 /\ RSame(a.pv.amt, b.pv.amt)
SameParams(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
    /\ a[i].id = b[i].id /\ a[i].name = b[i].name /\ a[i].var = b[i].var /\ a[i].f = b[i].f /\ a[i].unit = b[i].unit
    /\ RSame(a[i].amt, b[i].amt)
DsFields == {"id", "name", "type", "loc", "parent", "code", "refp", "tech", "attrs"}
(* equality of datasets except for the named fields; "excs" skips exchanges *)
SameDsBut(a, b, but) ==
    /\ \A k \in DsFields \ but : a[k] = b[k]
    /\ ("params" \in but \/ SameParams(a.params, b.params))
    /\ ("sup" \in but \/ (a.hassup = b.hassup /\ Len(a.sup) = Len(b.sup) /\ \A i \in 1..Len(a.sup) : SameSup(a.sup[i], b.sup[i])))
    /\ ("excs" \in but \/ SameExcs(a.excs, b.excs, {}))
SameDs(a, b) == SameDsBut(a, b, {})
SameDb(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameDs(a[i], b[i])

ById(db, id) == {i \in 1..Len(db) : db[i].id = id}
F(name, ok) == IF ok THEN {} ELSE {name}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
RSumSet(S, f(_)) == RSumOver(SetToSeq(S), f)
=============================================================================
