------------------------------ MODULE Linking ------------------------------
(* Spatial linking of activities through markets and market groups.        *)
(* Databases as in Db, geometry as in Topology.                            *)
EXTENDS Db, Topology

RCS == ", Recycled Content cut-off"
TheRP(d) == RPsOf(d)[1]
PVol(d) == TheRP(d).pv.amt
OrigPV(p) == IF IsNum(p.orig) THEN p.orig ELSE p.amt
Typed(db, t) == {i \in 1..Len(db) : db[i].type = t}
Locs(db, S) == {db[i].loc : i \in S}

(* ---- Rest-of-World labels ---------------------------------------------*)
NZNames(d) == [k \in 1..Len(Sel(d.excs, LAMBDA e : IsProd(e) /\ RSign(e.amt) # 0)) |-> Sel(d.excs, LAMBDA e : IsProd(e) /\ RSign(e.amt) # 0)[k].name]
SameGroup(a, b) == a.name = b.name /\ SameBag(NZNames(a), NZNames(b))
GroupOf(db, i) == {j \in 1..Len(db) : SameGroup(db[i], db[j])}
Relabelled(db, i) == db[i].type # MG /\ db[i].loc = "GLO" /\ Cardinality(GroupOf(db, i)) > 1
RegionalPV(db, i) == RSumSet(GroupOf(db, i) \ {i}, LAMBDA j : IF Len(RPsOf(db[j])) = 1 THEN OrigPV(TheRP(db[j]).pv) ELSE RZero)
SingleGlobal(db) == \A i \in 1..Len(db) : Relabelled(db, i) => \A j \in GroupOf(db, i) \ {i} : db[j].loc # "GLO"
RelabelDs(db, i) ==
    IF ~Relabelled(db, i) THEN db[i]
    ELSE [db[i] EXCEPT !.loc = "RoW", !.excs = [k \in 1..Len(@) |->
            IF ~IsRP(@[k]) THEN @[k]
            ELSE LET p == db[i].excs[k].pv IN
                 [@[k] EXCEPT !.pv = [p EXCEPT !.gl = p.amt, !.amt = RMax(RSub(p.amt, RegionalPV(db, i)), RZero)]]]]
Relabel(db) == [i \in 1..Len(db) |-> RelabelDs(db, i)]

(* ---- suppliers of markets ---------------------------------------------*)
(* geometry of a dataset among its peers (which define its Rest-of-World)  *)
FacesAmong(T, db, i, peers) == IF db[i].loc = "RoW" THEN ResolveRow(T, Locs(db, peers)) ELSE Faces(T, db[i].loc)
NoOverlap(T, db, S) == /\ \A i, j \in S : i # j => Faces(T, db[i].loc) \cap Faces(T, db[j].loc) = {}
                       /\ (\E i \in S : db[i].loc = "GLO") => Cardinality(S) = 1
SameName(db, S, i) == {j \in S : db[j].name = db[i].name}
(* producers (of type from) of product p lying within consumer c *)
Inside(T, db, c, consumers, producers) ==
    LET cf == FacesAmong(T, db, c, consumers) IN
    {i \in producers : LET pf == FacesAmong(T, db, i, SameName(db, producers, i)) IN pf # {} /\ pf \subseteq cf}
Distinct(db, S) == Cardinality(Locs(db, S)) = Cardinality(S)
Recycled(db, p) == {i \in Typed(db, TA) : db[i].refp = p \o RCS}
Producers(db, t, p) == {i \in Typed(db, t) : db[i].refp = p}
(* markets of p that recycled content reaches get nothing else *)
RCSup(T, db, c) == LET ms == Producers(db, MA, db[c].refp) IN Inside(T, db, c, ms, Recycled(db, db[c].refp))
Suppliers(T, db, c) ==
    LET ms == Producers(db, MA, db[c].refp)
        rc == RCSup(T, db, c)
        rest == {m \in ms : RCSup(T, db, m) = {}}
    IN IF rc # {} THEN rc ELSE Inside(T, db, c, rest, Producers(db, TA, db[c].refp))
MarketsRejected(T, db) ==
    \E c \in Typed(db, MA) :
        LET ms == Producers(db, MA, db[c].refp)
            ps == Producers(db, TA, db[c].refp)
            rest == {m \in ms : RCSup(T, db, m) = {}}
        IN \/ ~NoOverlap(T, db, ms) \/ ~Distinct(db, ms)
           \/ (rest # {} /\ \E i \in ps : ~NoOverlap(T, db, SameName(db, ps, i)))
           \/ \E i \in Recycled(db, db[c].refp) : ~NoOverlap(T, db, SameName(db, Recycled(db, db[c].refp), i))

(* ---- shares ------------------------------------------------------------*)
TotalPV(sup) == RSumOver(sup, LAMBDA s : s.pv.amt)
Fed(sup) == LET t == TotalPV(sup) IN
    IF RSign(t) = 0 THEN (IF Len(sup) = 1 THEN [i \in {1} |-> ROne] ELSE <<>>)
    ELSE [i \in {k \in 1..Len(sup) : RSign(sup[k].pv.amt) # 0} |-> RDiv(sup[i].pv.amt, t)]

(* ---- market volumes ---------------------------------------------------*)
SubOf(d) == IF IsNum(TheRP(d).pv.sub) THEN TheRP(d).pv.sub ELSE RZero
MarketPV(d) == RMax(RSub(TotalPV(d.sup), SubOf(d)), RZero)
MarketOrig(d) == RSumOver(d.sup, LAMBDA s : OrigPV(s.pv))
(* groups: volumes of contained groups first *)
RECURSIVE GroupPV(_, _, _)
GroupSupPV(db, i, k, fuel) ==
    LET g == {j \in Typed(db, MG) : j # i /\ db[j].code = db[i].sup[k].code} IN
    IF g = {} \/ fuel = 0 THEN db[i].sup[k].pv.amt ELSE GroupPV(db, CHOOSE j \in g : TRUE, fuel - 1)
GroupPV(db, i, fuel) ==
    RMax(RSub(RSum([k \in 1..Len(db[i].sup) |-> GroupSupPV(db, i, k, fuel)]), SubOf(db[i])), RZero)

(* ---- choice among markets and groups ----------------------------------*)
(* Candidates: locations with their faces; chosen from largest to smallest *)
(* inside `area`, each in the part not covered by larger chosen ones; the  *)
(* Rest-of-World covers nothing (its points belong to no region).          *)
Cover(T, l) == Faces(T, l)
CandFaces(T, l, rowfaces) == IF l = "RoW" THEN rowfaces ELSE Faces(T, l)
ChosenOK(T, area, cands, chosen, rowfaces) ==
    LET sz(l) == SizeOfFaces(T, CandFaces(T, l, rowfaces))
        fits(l, others) == LET f == CandFaces(T, l, rowfaces) IN f # {} /\ f \subseteq area \ UNION {Cover(T, o) : o \in others}
    IN /\ chosen \subseteq cands
       /\ \A l \in chosen : fits(l, {o \in chosen : o # l /\ sz(o) >= sz(l)})
       /\ \A l \in cands \ chosen : ~fits(l, {o \in chosen : sz(o) >= sz(l)})
(* the greedy choice when all sizes differ *)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(T, area, cands, chosen, rowfaces) ==
    IF cands = {} THEN chosen
    ELSE LET sz(l) == SizeOfFaces(T, CandFaces(T, l, rowfaces))
             l == CHOOSE x \in cands : \A y \in cands : sz(y) <= sz(x)
             f == CandFaces(T, l, rowfaces)
             ok == f # {} /\ f \subseteq area \ UNION {Cover(T, o) : o \in chosen}
         IN Greedy(T, area, cands \ {l}, IF ok THEN chosen \cup {l} ELSE chosen, rowfaces)

MarketsOf(db, p) == Producers(db, MA, p)
GroupsOf(db, p) == Producers(db, MG, p)
RowOf(T, db, p) == LET ms == MarketsOf(db, p) IN IF "RoW" \in Locs(db, ms) THEN ResolveRow(T, Locs(db, ms)) ELSE {}
(* the market is preferred where a market and a group share a location *)
AtLoc(db, p, l) == LET m == {i \in MarketsOf(db, p) : db[i].loc = l} IN
                   IF m # {} THEN m ELSE {i \in GroupsOf(db, p) : db[i].loc = l}
CandLocs(db, p) == Locs(db, MarketsOf(db, p) \cup GroupsOf(db, p))
(* a group's own location is no candidate unless a market has it *)
GroupCands(db, g) == LET p == db[g].refp IN
    {l \in CandLocs(db, p) : l # db[g].loc \/ \E m \in MarketsOf(db, p) : db[m].loc = l}
ConsistentNames(db) == \A i, j \in Typed(db, MG) : db[i].refp = db[j].refp => db[i].name = db[j].name

(* ---- consumers ---------------------------------------------------------*)
ConsumerFaces(T, db, i) == IF db[i].loc # "RoW" THEN Faces(T, db[i].loc)
    ELSE ResolveRow(T, Locs(db, {j \in Typed(db, IF db[i].type = TA THEN TA ELSE MA) : db[j].name = db[i].name}))
(* smallest candidates containing the consumer *)
Around(T, db, p, cf) == LET row == RowOf(T, db, p)
                            c == {l \in CandLocs(db, p) : cf # {} /\ cf \subseteq CandFaces(T, l, row)}
                            sz(l) == SizeOfFaces(T, CandFaces(T, l, row))
                        IN {l \in c : \A o \in c : sz(l) <= sz(o)}
Unlinked(e) == e.type = TI /\ e.code = ""
Pos(db, code) == {i \in 1..Len(db) : db[i].code = code}
RCTargets(db, name) == {j \in Typed(db, TA) : db[j].refp = name /\ db[j].isrc}
(* input e of consumer i is split over new: linked to the largest markets  *)
(* and groups within the consumer, by volume, or to the smallest around    *)
LinkedOK(T, db, i, e, new, untouched) ==
    LET p == e.name  cf == ConsumerFaces(T, db, i)  row == RowOf(T, db, p)
        cands == CandLocs(db, p)
        locsOf(q) == {db[j].loc : j \in UNION {Pos(db, q[k].code) : k \in 1..Len(q)}}
        pv(l) == PVol(db[CHOOSE j \in AtLoc(db, p, l) : TRUE])
        linked(L) == \* linked to exactly the markets at locations L, split by volume
            LET tot == RSumSet(L, pv) IN
            IF Cardinality(L) > 1 /\ RSign(tot) = 0 THEN untouched
            ELSE LET fed == IF Cardinality(L) = 1 THEN L ELSE {l \in L : RSign(pv(l)) # 0} IN
                 /\ Len(new) = Cardinality(fed)
                 /\ \A l \in fed : \E k \in 1..Len(new) :
                      /\ \E j \in AtLoc(db, p, l) : db[j].code = new[k].code
                      /\ RClose(new[k].amt, IF Cardinality(L) = 1 THEN e.amt ELSE RMul(e.amt, RDiv(pv(l), tot)))
                 /\ RCloseS(RSumOver(new, LAMBDA x : x.amt), e.amt, RZero)
    IN \/ \E Z \in SUBSET {l \in cands : RSign(pv(l)) = 0} : LET C == locsOf(new) \cup Z IN C # {} /\ ChosenOK(T, cf, cands, C, row) /\ linked(C)
       \/ ChosenOK(T, cf, cands, {}, row) /\ Around(T, db, p, cf) # {} /\ \E l \in Around(T, db, p, cf) : linked({l})
       \/ ChosenOK(T, cf, cands, {}, row) /\ Around(T, db, p, cf) = {} /\ untouched

(* ---- codes and references ---------------------------------------------*)
(* hard links become references where the named activity still has exactly *)
(* one dataset with that product                                           *)
Named(db, e) == {j \in ById(db, e.link) : db[j].refp = e.name}
Actualize(db) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = [k \in 1..Len(@) |->
    IF db[i].excs[k].link # "" /\ Cardinality(Named(db, db[i].excs[k])) = 1
    THEN [db[i].excs[k] EXCEPT !.code = db[CHOOSE j \in Named(db, db[i].excs[k]) : TRUE].code] ELSE db[i].excs[k]]]]
(* codes some dataset depends on: references, and only suppliers *)
Referenced(db) == UNION {{db[i].excs[k].code : k \in 1..Len(db[i].excs)} \cup
                         (IF Len(db[i].sup) = 1 THEN {db[i].sup[1].code} ELSE {}) : i \in 1..Len(db)} \ {""}
Idle(db, i, kind) == /\ db[i].type = kind /\ db[i].loc = "RoW" /\ Len(RPsOf(db[i])) = 1 /\ RSign(OrigPV(TheRP(db[i]).pv)) = 0
                     /\ Cardinality({j \in Typed(db, kind) : db[j].refp = db[i].refp}) > 1
(* only the first Rest-of-World activity of a product is considered *)
FirstRow(db, i, kind) == ~\E j \in 1..(i - 1) : db[j].type = kind /\ db[j].refp = db[i].refp /\ db[j].loc = "RoW"
Purge(db, kind) == LET keep == {i \in 1..Len(db) : ~(Idle(db, i, kind) /\ FirstRow(db, i, kind) /\ db[i].code \notin Referenced(db))}
                   IN FoldLeft(LAMBDA acc, i : IF i \in keep THEN Append(acc, db[i]) ELSE acc, <<>>, [i \in 1..Len(db) |-> i])
Closed(db) == \A i \in 1..Len(db) : \A k \in 1..Len(db[i].excs) :
    LET e == db[i].excs[k] IN e.type = TI /\ e.code # "" => \E j \in 1..Len(db) : db[j].code = e.code /\ db[j].refp = e.name
DropUnlinked(db) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.excs = Sel(@, LAMBDA e : ~Unlinked(e))]]
=============================================================================
