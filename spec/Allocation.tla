----------------------------- MODULE Allocation -----------------------------
(* Cut-off allocation: choice of method and the effect of each method.     *)
(* A dataset is [id, name, type, excs, elems]; an exchange is              *)
(* [id, name, type, cls, amt, price, tv, cond] with rationals amt, price,  *)
(* tv (NaR = absent).  elems lists the parameterized elements (Formula).   *)
EXTENDS Formula, SequencesExt, FiniteSetsExt

RP == "reference product"
BP == "byproduct"
TI == "from technosphere"
DROP == "dropped product"
ALLOC == "allocatable product"

IsRP(e) == e.type = RP
IsAllocBP(e) == e.type = BP /\ e.cls = ALLOC
NonZero(e) == RSign(e.amt) # 0
IsProduction(e) == IsRP(e) \/ IsAllocBP(e)

Sel(q, P(_)) == SelectSeq(q, P)

RPs(ds)        == Sel(ds.excs, IsRP)
NZRPs(ds)      == Sel(ds.excs, LAMBDA e : IsRP(e) /\ NonZero(e))
AllocBPs(ds)   == Sel(ds.excs, IsAllocBP)
NZAllocBPs(ds) == Sel(ds.excs, LAMBDA e : IsAllocBP(e) /\ NonZero(e))
Production(ds) == Sel(ds.excs, IsProduction)
NonProduction(ds) == Sel(ds.excs, LAMBDA e : ~IsProduction(e))

(***************************************************************************)
(* Method choice (A02): the documented decision tree.                      *)
(***************************************************************************)
RareEarth == "rare earth oxides production from bastnäsite concentrate"

MethodOf(nrp, rpCls, neg, allocBP, allocRP, type, cond, name) ==
    CASE nrp = 1 /\ ~allocBP -> "single product"
      [] type = "market group" -> "market group"
      [] type = "market activity" -> IF cond THEN "constrained market" ELSE "unconstrained market"
      [] nrp > 1 -> IF ~allocRP THEN "combined production without products"
                    ELSE IF allocBP THEN "combined production with byproducts"
                    ELSE IF name = RareEarth THEN "economic"
                    ELSE "combined production"
      [] neg -> IF rpCls = "waste" THEN "waste treatment" ELSE "recycling"
      [] OTHER -> "economic"

Method(ds) ==
    LET nz == NZRPs(ds) IN
    MethodOf(Len(nz),
             IF Len(nz) = 0 THEN "none" ELSE nz[1].cls,
             \E i \in 1..Len(nz) : RSign(nz[i].amt) < 0,
             Len(NZAllocBPs(ds)) > 0,
             \E i \in 1..Len(ds.excs) : IsRP(ds.excs[i]) /\ ds.excs[i].cls = ALLOC,
             ds.type,
             \E i \in 1..Len(ds.excs) : ds.excs[i].cond,
             ds.name)

Methods == {"single product", "market group", "unconstrained market", "economic",
            "constrained market", "recycling", "waste treatment",
            "combined production without products", "combined production",
            "combined production with byproducts"}

(***************************************************************************)
(* Economic allocation (A03): an allocation factor per production exchange *)
(***************************************************************************)
Price(e) == IF IsNum(e.price) THEN e.price ELSE RZero
Revenue(e) == RMul(Price(e), e.amt)
HasTV(e) == IsNum(e.tv)
TrueValue(e) == IF HasTV(e) THEN RMul(e.tv, e.amt) ELSE RZero
TotalRevenue(ps) == RSumOver(ps, Revenue)
TVRevenue(ps) == RSumOver(Sel(ps, HasTV), Revenue)
TVTotal(ps) == RSumOver(ps, TrueValue)
Factor(ps, e) == IF HasTV(e)
                 THEN RMul(RDiv(TrueValue(e), TVTotal(ps)), RDiv(TVRevenue(ps), TotalRevenue(ps)))
                 ELSE RDiv(Revenue(e), TotalRevenue(ps))
(* factors are defined when there is revenue, and true values if any has one *)
FactorsDefined(ps) == RSign(TotalRevenue(ps)) > 0
                      /\ ((\E i \in 1..Len(ps) : HasTV(ps[i])) => RSign(TVTotal(ps)) > 0)
EconomicValid(ps) == \A i \in 1..Len(ps) :
                        /\ IsNum(ps[i].price) /\ RSign(ps[i].price) >= 0
                        /\ RSign(ps[i].amt) >= 0
(* one result: chosen product normalized to one, other products dropped,   *)
(* all other exchanges scaled                                              *)
Choose(ds, p, factor) ==
    LET k == RDiv(factor, RAbs(p.amt)) IN
    [rp |-> p, sign |-> RSign(p.amt),
     rest |-> [i \in 1..Len(NonProduction(ds)) |->
                  [id |-> NonProduction(ds)[i].id, amt |-> RMul(NonProduction(ds)[i].amt, k)]]]
EconomicOn(ds, ps) == [k \in 1..Len(ps) |-> Choose(ds, ps[k], Factor(ps, ps[k]))]
Economic(ds) == EconomicOn(ds, Production(ds))

(***************************************************************************)
(* Waste treatment and recycling (A04)                                     *)
(***************************************************************************)
WasteTreatment(ds) ==
    <<Choose(ds, RPs(ds)[1], ROne)>> \o
    [k \in 1..Len(AllocBPs(ds)) |-> [rp |-> AllocBPs(ds)[k], sign |-> RSign(AllocBPs(ds)[k].amt), rest |-> <<>>]]

AsInput(e) == [e EXCEPT !.type = TI, !.amt = RNeg(@)]
Recycled(ds) == [ds EXCEPT !.excs = [i \in 1..Len(@) |-> IF IsRP(@[i]) THEN AsInput(@[i]) ELSE @[i]]]
Recycling(ds) == Economic(Recycled(ds))

(***************************************************************************)
(* Combined production (A05): subdivision over the formulas                *)
(***************************************************************************)
(* elements of the subdivided dataset for chosen product r *)
SubElems(ds, r) ==
    [i \in 1..Len(ds.elems) |->
        LET e == ds.elems[i]
            own == {j \in 1..Len(ds.excs) : IsRP(ds.excs[j]) /\ ds.excs[j].id = e.key}
        IN IF own = {} THEN e
           ELSE IF e.key = r.id THEN [e EXCEPT !.hasf = FALSE]
           ELSE [e EXCEPT !.hasf = FALSE, !.amt = RZero]]
ElemIndex(elems, key) == {i \in 1..Len(elems) : elems[i].key = key}
SubAmount(ds, r, x) ==
    LET els == SubElems(ds, r)  ix == ElemIndex(els, x.id)
    IN IF IsRP(x) THEN (IF x.id = r.id THEN x.amt ELSE RZero)
       ELSE IF ix = {} THEN x.amt ELSE ElemValue(els, CHOOSE i \in ix : TRUE)
Subdivide(ds, r) ==
    [ds EXCEPT !.excs = [i \in 1..Len(@) |->
        LET x == @[i]
            pk == ElemIndex(SubElems(ds, r), x.id \o "/price")
            price == IF pk = {} THEN x.price ELSE ElemValue(SubElems(ds, r), CHOOSE j \in pk : TRUE)
        IN [x EXCEPT !.amt = SubAmount(ds, r, x), !.price = price,
                     !.type = IF IsRP(x) /\ x.id # r.id THEN DROP ELSE @]]]
Subdivisions(ds) == [k \in 1..Len(NZRPs(ds)) |-> Subdivide(ds, NZRPs(ds)[k])]

(* results before merging: subdivided, economically allocated *)
SubAllocated(ds) == FlattenSeq([k \in 1..Len(NZRPs(ds)) |-> Economic(Subdivisions(ds)[k])])
(* amount of exchange id in the merged activity for product name           *)
MergedAmount(parts, pid, xid) ==
    LET mine == Sel(parts, LAMBDA q : q.rp.id = pid)
        of(q) == LET ii == {i \in 1..Len(q.rest) : q.rest[i].id = xid}
                 IN IF ii = {} THEN RZero ELSE q.rest[CHOOSE i \in ii : TRUE].amt
    IN RSumOver(mine, of)
MergedRP(parts, pid) == RInt(Len(Sel(parts, LAMBDA q : q.rp.id = pid)))

(* without allocatable reference products: each part by its classification *)
PartAllocation(ds, r) ==
    LET sub == Subdivide(ds, r) IN
    IF r.cls = "waste"
    THEN WasteTreatment([sub EXCEPT !.excs = Sel(@, LAMBDA e : e.type # DROP)])
    ELSE Recycling(sub)

(***************************************************************************)
(* The allocation step (A01): which products each dataset must yield       *)
(***************************************************************************)
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
ExpectedProducts(ds) ==
    LET m == Method(ds) IN
    CASE m \in {"single product", "market group", "unconstrained market", "constrained market"} -> Ids(NZRPs(ds))
      [] m = "economic" -> Ids(Production(ds))
      [] m = "recycling" -> Ids(AllocBPs(ds))
      [] m = "waste treatment" -> Ids(RPs(ds)) \o Ids(AllocBPs(ds))
      [] m = "combined production" -> Ids(NZRPs(ds))
      [] m = "combined production with byproducts" -> Ids(NZRPs(ds)) \o Ids(AllocBPs(ds))
      [] m = "combined production without products" ->
            FlattenSeq([k \in 1..Len(NZRPs(ds)) |->
                IF NZRPs(ds)[k].cls = "waste" THEN <<NZRPs(ds)[k].id>> \o Ids(AllocBPs(ds)) ELSE Ids(AllocBPs(ds))])

(***************************************************************************)
(* Datasets the allocation step has to accept                              *)
(***************************************************************************)
Usable(ps) == /\ Len(ps) > 0 /\ EconomicValid(ps) /\ FactorsDefined(ps)
              /\ \A i \in 1..Len(ps) : NonZero(ps[i])
DistinctNames(d) == \A i, j \in 1..Len(d.excs) :
    (IsProduction(d.excs[i]) /\ IsProduction(d.excs[j]) /\ d.excs[i].name = d.excs[j].name) => i = j
WellParam(d) == Defined(d.elems) /\ ~Cyclic(d.elems)

ValidPart(d, r) ==
    LET sub == Subdivide(d, r) IN
    CASE r.cls = "waste" -> RSign(r.amt) < 0 /\ \A i \in 1..Len(AllocBPs(sub)) : NonZero(AllocBPs(sub)[i])
      [] r.cls = "recyclable" -> RSign(r.amt) < 0 /\ Usable(Production(Recycled(sub)))
      [] OTHER -> FALSE
Valid(d) ==
    LET m == Method(d) IN
    /\ m \in {"combined production", "combined production with byproducts", "combined production without products"} => DistinctNames(d)
    /\ CASE m = "single product" -> TRUE
         [] m \in {"market group", "unconstrained market"} -> FALSE
         [] m = "constrained market" -> Len(RPs(d)) = 1 /\ Len(NZRPs(d)) = 1 /\ \A i \in 1..Len(AllocBPs(d)) : AllocBPs(d)[i].cond
         [] m = "economic" -> Usable(Production(d))
         [] m = "recycling" -> Len(RPs(d)) = 1 /\ Len(AllocBPs(d)) > 0 /\ Usable(Production(Recycled(d)))
         [] m = "waste treatment" -> Len(RPs(d)) = 1 /\ \A i \in 1..Len(AllocBPs(d)) : NonZero(AllocBPs(d)[i])
         [] m = "combined production" -> WellParam(d)
         [] m = "combined production with byproducts" ->
                WellParam(d) /\ \A k \in 1..Len(NZRPs(d)) : Usable(Production(Subdivisions(d)[k]))
         [] m = "combined production without products" ->
                WellParam(d) /\ \A k \in 1..Len(NZRPs(d)) : ValidPart(d, NZRPs(d)[k])
         [] OTHER -> FALSE
(* without products: expected (name, product, choice) for every part       *)
PartName(d, r) == IF r.cls = "waste" THEN d.name ELSE d.name \o ", from " \o r.name
PartsNP(d) == FlattenSeq([k \in 1..Len(NZRPs(d)) |->
    LET r == NZRPs(d)[k]  ch == PartAllocation(d, r) IN
    [i \in 1..Len(ch) |-> [nm |-> PartName(d, r), ch |-> ch[i], recycled |-> r.cls # "waste"]]])
(* ---- normalization (A06) ----------------------------------------------*)
Normalizable(d) == Len(RPs(d)) = 1 /\ RSign(RPs(d)[1].amt) # 0
NormFactor(d) == RDiv(ROne, RAbs(RPs(d)[1].amt))
Scaled(d, k) == [d EXCEPT !.excs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.amt = RMul(@, k)]]]
Normalized(d) == Scaled(d, NormFactor(d))
=============================================================================
