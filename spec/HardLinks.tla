------------------------------ MODULE HardLinks ------------------------------
(* Hard (activity) links and production volumes before allocation.         *)
EXTENDS Db

(* links to an activity known to be missing from ecoinvent 3.5 are dropped *)
Dropped35 == {"25edb027-d7c0-4756-a051-cab82e4f6248"}
Fix35(db) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs =
    [k \in 1..Len(@) |-> IF @[k].link \in Dropped35 THEN [@[k] EXCEPT !.link = ""] ELSE @[k]]]]

Candidates(t, name) == CountOf(t.excs, LAMBDA p : IsProd(p) /\ p.name = name)
Resolves(db, e) == \E i \in ById(db, e.link) : Candidates(db[i], e.name) = 1
ValidLinks(db) == \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) :
    db[i].excs[k].link # "" => Resolves(db, db[i].excs[k])

(* ---- production scale of an activity ---------------------------------*)
Ratios(d) == LET q == Sel(d.excs, LAMBDA e : IsRP(e) /\ IsNum(e.amt) /\ RSign(e.amt) # 0)
             IN [i \in 1..Len(q) |-> RDiv(q[i].pv.amt, q[i].amt)]
HasScale(d) == Ratios(d) # <<>>
Biggest(d) == LET q == Ratios(d) IN {q[i] : i \in {k \in 1..Len(q) : \A j \in 1..Len(q) : RLe(RAbs(q[j]), RAbs(q[k]))}}
(* two reference products with opposite ratios of the same size leave the  *)
(* sign open; such activities are not constrained                          *)
ScaleDefined(d) == HasScale(d) /\ \A a, b \in Biggest(d) : RSign(a) = RSign(b)
Scale(d) == CHOOSE a \in Biggest(d) : TRUE

(* ---- subtraction ------------------------------------------------------*)
Foreign(db, i, k) == db[i].excs[k].link # "" /\ db[i].excs[k].link # db[i].id
Hits(db, t, name) == UNION {{<<i, k>> : k \in {k \in 1..Len(db[i].excs) :
    Foreign(db, i, k) /\ db[i].excs[k].link = t.id /\ db[i].excs[k].name = name}} : i \in 1..Len(db)}
LinkVolume(db, h) == RMul(db[h[1]].excs[h[2]].amt, Scale(db[h[1]]))
Subtracted(db, t, name) == RSumSet(Hits(db, t, name), LAMBDA h : LinkVolume(db, h))
(* terms may cancel; size of the computation *)
SubSize(db, t, name) == RSumSet(Hits(db, t, name), LAMBDA h : RAbs(LinkVolume(db, h)))

NewPV(db, t, p) ==
    IF ~IsProd(p) \/ Hits(db, t, p.name) = {} THEN p.pv
    ELSE LET sub == Subtracted(db, t, p.name) IN
         IF t.type = TA
         THEN [p.pv EXCEPT !.sub = sub, !.orig = p.pv.amt, !.amt = RMax(RSub(p.pv.amt, sub), RZero)]
         ELSE [p.pv EXCEPT !.sub = sub]
(* everything that links elsewhere must have a production scale *)
AllScaled(db, P(_)) == \A i \in 1..Len(db) : (\E k \in 1..Len(db[i].excs) : Foreign(db, i, k)) => P(db[i])
Manage(db0) == LET db == Fix35(db0) IN
    [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.pv = NewPV(db, db[i], db[i].excs[k])]]]]

(* ---- repairs of links -------------------------------------------------*)
MapExcs(db, g(_, _)) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = [k \in 1..Len(@) |-> g(db[i], @[k])]]]
ParentChild(db) == MapExcs(db, LAMBDA d, e :
    IF d.parent # "" /\ e.link = d.parent /\ ~IsProd(e) THEN [e EXCEPT !.link = d.id] ELSE e)
DropZero(db) == MapExcs(db, LAMBDA d, e : IF IsZero(e.amt) THEN [e EXCEPT !.link = ""] ELSE e)
DropRP(db) == MapExcs(db, LAMBDA d, e : IF e.type \in {RP, "dropped product"} THEN [e EXCEPT !.link = ""] ELSE e)

(* ---- by-product volumes ----------------------------------------------*)
ByproductPV(d) == [d EXCEPT !.excs = [k \in 1..Len(@) |->
    IF IsAllocBP(@[k]) /\ IsZero(@[k].pv.amt) THEN [@[k] EXCEPT !.pv.amt = RAbs(RMul(d.excs[k].amt, Scale(d)))] ELSE @[k]]]
HasAllocBP(d) == \E k \in 1..Len(d.excs) : IsAllocBP(d.excs[k])
VolumesPresent(db) == \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) : IsProd(db[i].excs[k]) => db[i].excs[k].pv.has
(* variables of volumes become parameters with the same name, value, formula *)
PVVars(d) == Sel(d.excs, LAMBDA e : e.pv.has /\ e.pv.var # "")
Deparam(d) == [d EXCEPT !.excs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.pv.var = "", !.pv.f = ""]]]
=============================================================================
