---------------------------- MODULE SystemModels ----------------------------
(* Cut-off handling of wastes and recyclables, market signs; consequential *)
(* handling of constrained markets and technology levels.                  *)
EXTENDS Db
RCS == ", Recycled Content cut-off"
Waste == "waste"
Recyclable == "recyclable"
EndsRC(n) == Len(n) >= Len(RCS) /\ SubSeq(n, Len(n) - Len(RCS) + 1, Len(n)) = RCS
StripRC(n) == IF EndsRC(n) THEN SubSeq(n, 1, Len(n) - Len(RCS)) ELSE n
MapExc(db, f(_)) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = [k \in 1..Len(@) |-> f(@[k])]]]

(* ---- recyclable by-products (cut off) ----------------------------------*)
IsRecyclable(e) == e.type = BP /\ e.cls = Recyclable
RenameRC(db) == MapExc(db, LAMBDA e : IF IsRecyclable(e) THEN [e EXCEPT !.name = @ \o RCS] ELSE e)
(* field f of the exchanges that satisfy P; not a set of exchanges: TLC cannot order big rationals *)
NamesOf(db, P(_)) == UNION {{db[i].excs[k].name : k \in {j \in 1..Len(db[i].excs) : P(db[i].excs[j])}} : i \in 1..Len(db)}
LinksOf(db, P(_)) == UNION {{db[i].excs[k].link : k \in {j \in 1..Len(db[i].excs) : P(db[i].excs[j])}} : i \in 1..Len(db)}
RCProducts(db) == NamesOf(db, IsRecyclable)
(* d is the burden-free source of product p *)
FreeSource(d, p) == /\ d.name = p /\ d.refp = p /\ d.loc = "GLO" /\ d.type = TA /\ Len(d.excs) = 1 /\ d.params = <<>>
                    /\ d.excs[1].name = p /\ d.excs[1].type = RP /\ d.excs[1].amt = ROne /\ d.excs[1].pv.has
StripNames(db) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.refp = StripRC(@), !.excs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.name = StripRC(@)]]]]

(* ---- outputs that become inputs ----------------------------------------*)
IsFlipped(e) == e.type = BP /\ e.cls # ALLOC
Flipped(e) == [e EXCEPT !.type = TI, !.cls = "none", !.amt = RNeg(@), !.fv = RNeg(@)]
FlipOutputs(db) == MapExc(db, LAMBDA e : IF IsFlipped(e) THEN Flipped(e) ELSE e)

(* ---- market signs ------------------------------------------------------*)
OneRP(d) == RPsOf(d)[1]
NonWasteMarket(d) == d.type = MA /\ OneRP(d).cls # Waste
AllNonPositive(d) == \A k \in 1..Len(d.excs) : RSign(d.excs[k].amt) <= 0
Negated(d) == IF ~NonWasteMarket(d) THEN {}
              ELSE IF AllNonPositive(d) THEN 1..Len(d.excs)
              ELSE IF RSign(OneRP(d).amt) < 0 THEN {k \in 1..Len(d.excs) : d.excs[k].name = OneRP(d).name} ELSE {}

(* ---- constrained markets (consequential) -------------------------------*)
Targets(db) == LinksOf(db, LAMBDA e : e.cond) \ {""}
DropLinks(db) == MapExc(db, LAMBDA e : IF ~e.cond /\ e.link \in Targets(db) THEN [e EXCEPT !.link = ""] ELSE e)
Opp(e) == [e EXCEPT !.amt = RNeg(@), !.fv = RNeg(@)]
Conds(db) == {h \in (1..Len(db)) \X (1..40) : h[2] <= Len(db[h[1]].excs) /\ db[h[1]].excs[h[2]].cond}
TargetOf(db, h) == CHOOSE t \in ById(db, db[h[1]].excs[h[2]].link) : TRUE
Corresponding(db, h) == {k \in 1..Len(db[TargetOf(db, h)].excs) : db[TargetOf(db, h)].excs[k].name = db[h[1]].excs[h[2]].name}
(* one constrained exchange, well posed: a link to another activity with   *)
(* one reference product and one input of the constrained product          *)
WellPosed(db, h) == /\ Cardinality(ById(db, db[h[1]].excs[h[2]].link)) = 1 /\ TargetOf(db, h) # h[1]
                    /\ Len(RPsOf(db[TargetOf(db, h)])) = 1
                    /\ Cardinality(Corresponding(db, h)) = 1
                    /\ \A k \in Corresponding(db, h) : db[TargetOf(db, h)].excs[k].type = TI
SwapRoles(db, h) ==
    LET t == TargetOf(db, h)  c == CHOOSE k \in Corresponding(db, h) : TRUE IN
    [db EXCEPT ![h[1]].excs[h[2]] = [Opp(@) EXCEPT !.type = TI],
               ![t].excs = [k \in 1..Len(@) |-> IF k = c THEN [Opp(@[k]) EXCEPT !.type = RP, !.cls = ALLOC]
                                               ELSE IF IsRP(@[k]) THEN [Opp(@[k]) EXCEPT !.type = TI] ELSE @[k]]]
RECURSIVE SwapAll(_, _)
SwapAll(db, S) == IF S = {} THEN db
    ELSE LET h == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN SwapAll(SwapRoles(db, h), S \ {h})
RECURSIVE AllPosed(_, _)
AllPosed(db, S) == IF S = {} THEN TRUE ELSE LET h == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN
    WellPosed(db, h) /\ AllPosed(SwapRoles(db, h), S \ {h})

(* ---- technology levels -------------------------------------------------*)
Levels == <<"new", "modern", "current", "old", "outdated">>
Known(sup) == {l \in 1..5 : \E k \in 1..Len(sup) : sup[k].tech = Levels[l]}
Best(sup) == Levels[CHOOSE l \in Known(sup) : \A m \in Known(sup) : l <= m]
Pruned(sup) == IF sup = <<>> THEN sup ELSE Sel(sup, LAMBDA s : s.tech = Best(sup))
NeedsPruning(d) == d.type \in {MA, MG} /\ d.sup # <<>>
ByproductsCovered(db) ==
    NamesOf(db, LAMBDA e : e.type = BP) \subseteq NamesOf(db, LAMBDA e : e.type = RP)
=============================================================================
