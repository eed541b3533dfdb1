------------------------------ MODULE Pipeline ------------------------------
(* A whole run of a system model: from the source datasets to the final    *)
(* database.  The steps before linking are composed from the modules that  *)
(* specify them; linking is a relation between the allocated activities    *)
(* and the final database (ties between equal areas leave choices open).   *)
(* Source exchanges carry price, tv, cq (used in the consequential model   *)
(* only) and fv; source datasets carry elems (formulas) next to Db fields. *)
EXTENDS Linking
A == INSTANCE Allocation
H == INSTANCE HardLinks
S == INSTANCE SystemModels

(* ---- before allocation -------------------------------------------------*)
Map(db, f(_)) == [i \in 1..Len(db) |-> f(db[i])]
NoCq(db) == Map(db, LAMBDA d : [d EXCEPT !.excs = Sel(@, LAMBDA e : ~e.cq)])
ByproductVolumes(db) == Map(db, LAMBDA d : IF H!HasAllocBP(d) /\ H!HasScale(d) THEN H!ByproductPV(d) ELSE d)
CleanLinks(db) == H!ParentChild(H!DropZero(H!DropRP(NoCq(ByproductVolumes(db)))))
Managed(db) == H!Manage(CleanLinks(db))

(* ---- activities ---------------------------------------------------------*)
(* choices of one source dataset: name, choice (as in Allocation), and the *)
(* dataset whose exchanges the choice keeps                                *)
Single(d) == [nm |-> d.name, ch |-> A!Choose(d, A!NZRPs(d)[1], ROne), base |-> d]
Plain(d, q, base) == [k \in 1..Len(q) |-> [nm |-> d.name, ch |-> q[k], base |-> base]]
Merged(d) ==
    LET parts == A!SubAllocated(d)
        ps == A!NZRPs(d) \o A!AllocBPs(d)
        np == A!NonProduction(d)
    IN [k \in 1..Len(ps) |-> [nm |-> d.name, base |-> d, ch |->
          [rp |-> ps[k], sign |-> RSign(ps[k].amt),
           rest |-> [i \in 1..Len(np) |-> [id |-> np[i].id, amt |-> RDiv(A!MergedAmount(parts, ps[k].id, np[i].id), A!MergedRP(parts, ps[k].id))]]]]]
WithoutProducts(d) ==
    LET ps == A!PartsNP(d) IN [k \in 1..Len(ps) |-> [nm |-> ps[k].nm, ch |-> ps[k].ch, base |-> IF ps[k].recycled THEN A!Recycled(d) ELSE d]]
Subdivided(d) == [k \in 1..Len(A!NZRPs(d)) |-> LET s == A!Subdivisions(d)[k] IN
    [nm |-> d.name, ch |-> A!Choose(s, A!RPs(s)[1], ROne), base |-> s]]
CutChoices(d) ==
    LET m == A!Method(d) IN
    CASE m \in {"single product", "constrained market"} -> <<Single(d)>>
      [] m = "economic" -> Plain(d, A!Economic(d), d)
      [] m = "recycling" -> Plain(d, A!Recycling(d), A!Recycled(d))
      [] m = "waste treatment" -> Plain(d, A!WasteTreatment(d), d)
      [] m = "combined production" -> Subdivided(d)
      [] m = "combined production with byproducts" -> Merged(d)
      [] m = "combined production without products" -> WithoutProducts(d)
      [] OTHER -> <<>>
(* consequential: by-products stay *)
Keep(d, r) == [rp |-> r, sign |-> RSign(r.amt),
    rest |-> LET q == Sel(d.excs, LAMBDA e : e.id # r.id) IN [i \in 1..Len(q) |-> [id |-> q[i].id, amt |-> RDiv(q[i].amt, RAbs(r.amt))]]]
ConChoices(d) == IF Len(RPsOf(d)) = 1 THEN <<[nm |-> d.name, ch |-> Keep(d, RPsOf(d)[1]), base |-> d]>>
    ELSE [k \in 1..Len(A!NZRPs(d)) |-> LET s == A!Subdivisions(d)[k] IN [nm |-> d.name, ch |-> Keep(s, RPsOf(s)[1]), base |-> s]]
ExcOf(d, id) == d.excs[CHOOSE k \in 1..Len(d.excs) : d.excs[k].id = id]
Activity(d, c, keepLink) ==
    [d EXCEPT !.name = c.nm, !.refp = c.ch.rp.name,
              !.excs = <<[c.ch.rp EXCEPT !.type = RP, !.amt = RInt(c.ch.sign), !.link = IF keepLink THEN @ ELSE ""]>> \o
                       [k \in 1..Len(c.ch.rest) |-> [ExcOf(c.base, c.ch.rest[k].id) EXCEPT !.amt = c.ch.rest[k].amt]]]
Activities(db, choices(_), keepLink) ==
    FlattenSeq([i \in 1..Len(db) |-> LET cs == choices(db[i]) IN [k \in 1..Len(cs) |-> Activity(db[i], cs[k], keepLink)]])
(* the burden-free source of a recycled material, filed under one of the   *)
(* datasets that put it out                                                *)
Owners(db, p) == {i \in 1..Len(db) : \E k \in 1..Len(db[i].excs) : S!IsRecyclable(db[i].excs[k]) /\ db[i].excs[k].name = p}
FreeActivity(d, p) ==
    LET e == d.excs[CHOOSE k \in 1..Len(d.excs) : S!IsRecyclable(d.excs[k]) /\ d.excs[k].name = p] IN
    [d EXCEPT !.name = p, !.refp = p, !.loc = "GLO", !.type = TA, !.parent = "", !.isrc = TRUE,
              !.excs = <<[e EXCEPT !.type = RP, !.amt = ROne, !.link = "", !.pv = [e.pv EXCEPT !.has = TRUE, !.amt = RInt(4), !.sub = NaR, !.orig = NaR]]>>]
FreeActivities(db, fin) ==
    LET ps == SetToSeq(S!RCProducts(db))
        owner(p) == LET f == {i \in Owners(db, p) : \E j \in 1..Len(fin) : fin[j].name = p /\ fin[j].id = db[i].id}
                    IN CHOOSE i \in (IF f = {} THEN Owners(db, p) ELSE f) : TRUE
    IN [k \in 1..Len(ps) |-> FreeActivity(db[owner(ps[k])], ps[k])]

CutSource(src) == S!RenameRC(Managed(src))
ConSplit(src) == Activities(H!DropZero(ByproductVolumes(src)), ConChoices, TRUE)
(* constrained markets swap after the split; amounts relate to one unit of *)
(* the reference product, before and after                                 *)
Unit1(d) == LET r == TheRP(d) IN [d EXCEPT !.refp = r.name, !.excs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.amt = RDiv(@, RAbs(r.amt))]]]
ConActs(src) == LET x == S!DropLinks(ConSplit(src))  y == S!SwapAll(x, S!Conds(x)) IN Map(y, Unit1)
Acts(model, src, fin) ==
    IF model = "cut" THEN LET x == CutSource(src) IN S!FlipOutputs(Activities(x, CutChoices, FALSE) \o FreeActivities(x, fin))
    ELSE ConActs(src)

(* ---- runs that must succeed --------------------------------------------*)
MarketsOK(db) == \A i \in 1..Len(db) : db[i].type = MA => /\ Len(RPsOf(db[i])) = 1
    /\ \A k \in 1..Len(db[i].excs) : db[i].excs[k].name = TheRP(db[i]).name => IsRP(db[i].excs[k]) \/ db[i].excs[k].link # ""
UniqueIds(db) == \A i, j \in 1..Len(db) : db[i].id = db[j].id => i = j
Tame(model, d) == d.type # MA \/ model = "con" \/ RSign(TheRP(d).amt) > 0 \/ TheRP(d).cls = "waste"
Sourced(model, src) ==
    /\ UniqueIds(src) /\ MarketsOK(src) /\ H!VolumesPresent(src)
    /\ \A i \in 1..Len(src) : Len(A!NZRPs(src[i])) > 0 /\ Tame(model, src[i]) /\ H!ScaleDefined(src[i])
    /\ IF model = "cut"
       THEN LET x == CleanLinks(src) IN
            /\ H!ValidLinks(x) /\ H!AllScaled(x, H!ScaleDefined)
            /\ LET y == CutSource(src) IN \A i \in 1..Len(y) : A!Valid(y[i]) /\ (A!Method(y[i]) = "single product" => Len(RPsOf(y[i])) = 1)
       ELSE /\ \A i \in 1..Len(src) : Len(RPsOf(src[i])) > 1 => A!WellParam(src[i]) /\ A!DistinctNames(src[i])
            /\ LET x == S!DropLinks(ConSplit(src))  c == S!Conds(x)  y == S!SwapAll(x, c) IN
               S!AllPosed(x, c) /\ S!ByproductsCovered(y) /\ \A i \in 1..Len(y) : Len(RPsOf(y[i])) = 1 /\ RSign(TheRP(y[i]).amt) # 0
(* the activities can be linked: suppliers, groups and markets well posed *)
Linkable(model, T, acts, low) ==
    /\ SingleGlobal(acts)
    /\ LET x == Relabel(acts) IN
       /\ ~MarketsRejected(T, x) /\ ConsistentNames(x)
       /\ \A i, j \in 1..Len(x) : i # j => <<low[x[i].name], low[x[i].refp], x[i].loc>> # <<low[x[j].name], low[x[j].refp], x[j].loc>>
       /\ \A i \in Typed(x, MG) : x[i].loc # "RoW" /\ \E m \in MarketsOf(x, x[i].refp) : x[m].loc # "RoW" /\ Faces(T, x[m].loc) \subseteq Faces(T, x[i].loc)
       /\ \A i \in 1..Len(x) : \A k \in 1..Len(x[i].excs) : LET e == x[i].excs[k] IN
            /\ e.type = TI => (\E m \in MarketsOf(x, e.name) : x[m].loc # "RoW") \/ Cardinality(RCTargets(x, e.name)) = 1
            /\ e.link # "" => ById(x, e.link) # {}
       /\ model = "con" => \A i \in 1..Len(x) :
            /\ x[i].type = MA => LET s == Suppliers(T, x, i) IN s # {} => \E j \in s : x[j].tech \in Range(S!Levels)
            /\ x[i].type = MG => LET gs == GroupsOf(x, x[i].refp)  ms == MarketsOf(x, x[i].refp) IN Distinct(x, gs) /\ \A m \in ms : NoOverlap(T, x, SameName(x, ms, m))

(* ---- the final database -------------------------------------------------*)
Match(fin, a) == {j \in 1..Len(fin) : fin[j].id = a.id /\ fin[j].name = a.name /\ fin[j].refp = S!StripRC(a.refp)}
Coded(acts, fin) == [i \in 1..Len(acts) |-> LET m == Match(fin, acts[i]) IN
    [acts[i] EXCEPT !.code = IF m = {} THEN "missing " \o ToString(i) ELSE fin[CHOOSE j \in m : TRUE].code]]
SupplierPV(x, j) == TheRP(x[j]).pv
Best(x, s) == {j \in s : x[j].tech = S!Best([k \in 1..Cardinality(s) |-> [tech |-> x[SetToSeq(s)[k]].tech]])}
Feeds(model, T, x, i) == LET s == Suppliers(T, x, i) IN IF model = "con" /\ s # {} THEN Best(x, s) ELSE s
WithSuppliers(x, i, s) == [x[i] EXCEPT !.hassup = TRUE, !.sup = LET q == SetToSeq(s) IN [k \in 1..Len(q) |-> [code |-> x[q[k]].code, pv |-> SupplierPV(x, q[k])]]]
SetVolume(d, v) == [d EXCEPT !.excs = [k \in 1..Len(d.excs) |-> IF IsRP(d.excs[k]) THEN [d.excs[k] EXCEPT !.pv.amt = v] ELSE d.excs[k]]]
Fed1(model, T, x) == [i \in 1..Len(x) |-> IF x[i].type # MA THEN x[i]
    ELSE LET d == WithSuppliers(x, i, Feeds(model, T, x, i)) IN SetVolume(d, MarketPV(d))]
InFin(fin, d) == \E j \in 1..Len(fin) : fin[j].code = d.code
FinOf(fin, d) == fin[CHOOSE j \in 1..Len(fin) : fin[j].code = d.code]
NewOf(o) == Sel(o.excs, LAMBDA e : e.id = "" /\ e.type = TI)
Sgn(d) == TheRP(d).amt
OnlyIdleMissing(x, fin) ==
    LET gone == {i \in 1..Len(x) : ~InFin(fin, x[i])}
        left == Sel(x, LAMBDA d : d.type # MA \/ InFin(fin, d))
    IN \A i \in gone : IF x[i].type = MA THEN Idle(x, i, MA) /\ x[i].code \notin Referenced(x)
                       ELSE Idle(x, i, TA) /\ x[i].code \notin Referenced(left)
(* a market draws on its suppliers by volume *)
MixOK(d, o) ==
    LET fed == Fed(d.sup)  new == NewOf(o) IN
    /\ SameBag([k \in 1..Len(new) |-> new[k].code], [k \in 1..Cardinality(DOMAIN fed) |-> d.sup[SetToSeq(DOMAIN fed)[k]].code])
    /\ \A k \in DOMAIN fed : \A j \in 1..Len(new) : new[j].code = d.sup[k].code => RClose(new[j].amt, RMul(fed[k], Sgn(d))) /\ new[j].name = S!StripRC(d.refp)
(* volumes as the final database has them: Volumes says they are right up  *)
(* to rounding, and whether a residue of rounding counts is not claimed    *)
FinalVolumes(x, fin, types) == [i \in 1..Len(x) |->
    IF x[i].type \in types /\ InFin(fin, x[i]) /\ TheRP(x[i]).pv.has /\ Len(RPsOf(FinOf(fin, x[i]))) = 1 /\ IsNum(TheRP(FinOf(fin, x[i])).pv.amt)
    THEN SetVolume(x[i], TheRP(FinOf(fin, x[i])).pv.amt) ELSE x[i]]
GroupOK(model, T, x, i, o) ==
    LET d == x[i]  p == d.refp  row == RowOf(T, x, p)  new == NewOf(o)
        cands == IF model = "cut" THEN GroupCands(x, i) ELSE {l \in CandLocs(x, p) : \E m \in MarketsOf(x, p) : x[m].loc = l}
        at(l) == CHOOSE j \in AtLoc(x, p, l) : TRUE
        pv(l) == PVol(x[at(l)])
        C == {x[j].loc : j \in UNION {Pos(x, new[k].code) : k \in 1..Len(new)}}
        chosen(L) == IF model = "cut" THEN ChosenOK(T, Faces(T, d.loc), cands, L, row)
                     ELSE L = {x[j].loc : j \in Inside(T, x, i, GroupsOf(x, p), MarketsOf(x, p))}
        fits(L) == LET tot == RSumSet(L, pv)
                       fed == IF RSign(tot) = 0 THEN (IF Cardinality(L) = 1 THEN L ELSE {}) ELSE {l \in L : RSign(pv(l)) # 0}
                   IN /\ Len(new) = Cardinality(fed) /\ C = fed
                      /\ \A k \in 1..Len(new) : \E l \in fed : new[k].code = x[at(l)].code /\ new[k].name = p /\
                            RClose(new[k].amt, RMul(Sgn(d), IF RSign(tot) = 0 THEN ROne ELSE RDiv(pv(l), tot)))
                      /\ RCloseS(TheRP(o).pv.amt, RMax(RSub(tot, SubOf(d)), RZero), RAdd(tot, RAbs(SubOf(d))))
    IN \E Z \in SUBSET {l \in cands : RSign(pv(l)) = 0} : chosen(C \cup Z) /\ fits(C \cup Z)
(* exchanges of activity i with identifier id *)
WithId(o, id) == Sel(o.excs, LAMBDA e : e.id = id)
AllZero(q) == \A k \in 1..Len(q) : RSign(q[k].amt) = 0
Total(q) == RSumOver(q, LAMBDA e : e.amt)
ExcOK(T, x, i, e, o, cut) ==
    LET q == WithId(o, e.id)  nm == S!StripRC(e.name)
        named == \A k \in 1..Len(q) : q[k].name = nm /\ q[k].unit = e.unit
        one(type, amt, code) == Len(q) = 1 /\ q[1].type = type /\ RCloseS(q[1].amt, amt, ROne) /\ q[1].code = code
        rc == IF cut THEN RCTargets(x, e.name) ELSE {}
    IN IF RSign(e.amt) = 0 THEN AllZero(q)
       ELSE named /\
       CASE e.type # TI -> one(e.type, e.amt, e.code)
         [] e.code # "" -> one(TI, e.amt, e.code)
         [] rc # {} /\ Cardinality(rc) = 1 -> one(TI, e.amt, x[CHOOSE j \in rc : TRUE].code)
         [] OTHER -> (\A k \in 1..Len(q) : q[k].type = TI) /\ LinkedOK(T, x, i, e, q, q = <<>>)

Final(model, T, src, fin) ==
    LET cut == model = "cut"
        acts == Coded(Acts(model, src, fin), fin)
        x0 == Actualize(Relabel(acts))
        x1 == Fed1(model, T, FinalVolumes(x0, fin, {TA}))
        x2 == Sel(Fed1(model, T, x0), LAMBDA d : InFin(fin, d))
        x3 == FinalVolumes(Sel(x1, LAMBDA d : InFin(fin, d)), fin, {MA, MG})
        O(i) == FinOf(fin, x3[i])
    IN
    (* every choice is one activity, nothing else is there *)
    F("Covers", /\ \A i \in 1..Len(acts) : Cardinality(Match(fin, acts[i])) <= 1
                /\ \A j \in 1..Len(fin) : \E i \in 1..Len(acts) : j \in Match(fin, acts[i])) \cup
    F("Purged", IF cut THEN OnlyIdleMissing(x1, fin) ELSE Len(x2) = Len(x1)) \cup
    F("Codes", \A i, j \in 1..Len(fin) : fin[i].code # "" /\ (fin[i].code = fin[j].code => i = j)) \cup
    F("OneProduct", \A j \in 1..Len(fin) : LET q == RPsOf(fin[j]) IN Len(q) = 1 /\ RSame(RAbs(q[1].amt), ROne) /\ q[1].code = fin[j].code) \cup
    F("NoByproducts", cut => \A j \in 1..Len(fin) : \A k \in 1..Len(fin[j].excs) : fin[j].excs[k].type = BP => IsZero(fin[j].excs[k].amt)) \cup
    F("Label", \A i \in 1..Len(x3) : O(i).loc = x3[i].loc /\ O(i).type = x3[i].type) \cup
    F("Sign", \A i \in 1..Len(x3) : RCloseS(TheRP(O(i)).amt, Sgn(x3[i]), RZero)) \cup
    F("Volumes", \A i \in 1..Len(x2) : x2[i].type # MG => TheRP(O(i)).pv.has = TheRP(x2[i]).pv.has /\ (TheRP(x2[i]).pv.has => RCloseS(TheRP(O(i)).pv.amt, PVol(x2[i]), RAdd(ROne, RAdd(RAbs(PVol(acts[CHOOSE a \in 1..Len(acts) : acts[a].code = x2[i].code])), RAbs(SubOf(x2[i]))))))) \cup
    F("MarketMix", \A i \in Typed(x3, MA) : MixOK(x3[i], O(i))) \cup
    F("GroupMix", \A i \in Typed(x3, MG) : GroupOK(model, T, x3, i, O(i))) \cup
    F("Amounts", \A i \in 1..Len(x3) : \A k \in 1..Len(x3[i].excs) : LET e == x3[i].excs[k] IN
        e.type # RP /\ RSign(e.amt) # 0 => LET q == WithId(O(i), e.id)  t == Total(q) IN
            (q = <<>> /\ e.type = TI /\ e.code = "") \/ RCloseS(t, e.amt, ROne)) \cup
    F("Consumers", \A i \in 1..Len(x3) : \A k \in 1..Len(x3[i].excs) : LET e == x3[i].excs[k] IN
        e.type = RP \/ (x3[i].type = MG /\ e.type = TI) \/ ExcOK(T, x3, i, e, O(i), cut)) \cup
    F("NothingNew", \A i \in 1..Len(x3) : \A k \in 1..Len(O(i).excs) : LET e == O(i).excs[k] IN
        IF e.id = "" THEN x3[i].type \in {MA, MG} ELSE \E m \in 1..Len(x3[i].excs) : x3[i].excs[m].id = e.id \/ IsZero(e.amt)) \cup
    (* cut-off: what an activity takes in comes from an activity *)
    F("Linked", cut => \A j \in 1..Len(fin) : \A k \in 1..Len(fin[j].excs) : LET e == fin[j].excs[k] IN e.type = TI => e.code # "" \/ IsZero(e.amt)) \cup
    F("Resolves", \A j \in 1..Len(fin) : \A k \in 1..Len(fin[j].excs) : LET e == fin[j].excs[k] IN
        e.type = TI /\ e.code # "" => \E m \in 1..Len(fin) : fin[m].code = e.code /\ fin[m].refp = e.name)
=============================================================================
