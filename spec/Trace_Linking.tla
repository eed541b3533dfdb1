---------------------------- MODULE Trace_Linking ----------------------------
(* Conformance of the spatial linking steps (L02-L07).                     *)
(* Record: [id, fn, shape, outcome, T, src, out, after, ...]               *)
EXTENDS Linking, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Rejected(r) == r.outcome # "ok"
Codes(q) == [k \in 1..Len(q) |-> q[k].code]
PVClose(a, b, sz) == \A k \in {"amt", "sub", "orig", "gl", "tot"} : (IsNum(a[k]) = IsNum(b[k])) /\ (IsNum(a[k]) => RCloseS(a[k], b[k], sz))
SamePVs(a, b) == \A k \in 1..Len(a) : SameExcBut(a[k], b[k], {"pv"}) /\ PVClose(a[k].pv, b[k].pv, RAdd(RAbs(IF IsNum(b[k].pv.gl) THEN b[k].pv.gl ELSE RZero), ROne))

(* ---- L02 ---------------------------------------------------------------*)
Singles(db) == \A i \in 1..Len(db) : Relabelled(db, i) => Len(RPsOf(db[i])) = 1
L02(r) ==
    CASE r.fn = "relabel" ->
            IF ~SingleGlobal(r.src) THEN F("Rejected", Rejected(r))
            ELSE IF ~Singles(r.src) THEN {}
            ELSE IF Rejected(r) THEN {"Accepted"}
            ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
            ELSE LET e == Relabel(r.src) IN
                 UNION {F("Label", r.out[i].loc = e[i].loc) \cup
                        F("Frame", SameDsBut(r.out[i], e[i], {"excs", "loc"}) /\ Len(r.out[i].excs) = Len(e[i].excs)) \cup
                        (IF Len(r.out[i].excs) = Len(e[i].excs) THEN F("Volume", SamePVs(r.out[i].excs, e[i].excs)) ELSE {}) : i \in 1..Len(e)}
      [] r.fn = "rowgroups" ->
            (IF \E i \in Typed(r.src, MG) : r.src[i].loc = "RoW" THEN F("Rejected", Rejected(r)) ELSE F("Accepted", ~Rejected(r))) \cup
            F("Unchanged", SameDb(r.after, r.src))
      [] OTHER -> {"UnknownFunction"}

(* ---- L03 ---------------------------------------------------------------*)
SupIs(s, d) == /\ s.code = d.code /\ s.loc = d.loc /\ s.act = d.name /\ s.tech = d.tech
               /\ s.name = TheRP(d).name /\ s.unit = TheRP(d).unit /\ SamePV(s.pv, TheRP(d).pv)
SupListOK(o, db, S) == /\ SameBag(Codes(o.sup), [k \in 1..Cardinality(S) |-> db[SetToSeq(S)[k]].code])
SupAnnotated(o, db) == \A k \in 1..Len(o.sup) : \E i \in Pos(db, o.sup[k].code) : SupIs(o.sup[k], db[i])
L03(r) ==
    IF r.fn = "groups" THEN   \* market groups fed directly by markets (consequential)
        LET bad == \E c \in Typed(r.src, MG) :
                     LET gs == Producers(r.src, MG, r.src[c].refp)  ms == Producers(r.src, MA, r.src[c].refp)
                     IN ~Distinct(r.src, gs) \/ \E i \in ms : ~NoOverlap(r.T, r.src, SameName(r.src, ms, i))
        IN IF bad THEN F("Rejected", Rejected(r))
           ELSE IF Rejected(r) THEN {"Accepted"}
           ELSE UNION {F("Frame", SameDsBut(r.out[i], r.src[i], {"sup"})) \cup
                       (IF r.src[i].type = MG
                        THEN F("Suppliers", SupListOK(r.out[i], r.src, Inside(r.T, r.src, i, Producers(r.src, MG, r.src[i].refp), Producers(r.src, MA, r.src[i].refp))))
                             \cup F("Annotated", SupAnnotated(r.out[i], r.src))
                        ELSE F("OnlyGroups", ~r.out[i].hassup)) : i \in 1..Len(r.src)}
    ELSE
    IF MarketsRejected(r.T, r.src) THEN F("Rejected", Rejected(r))
    ELSE IF Rejected(r) THEN {"Accepted"}
    ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
    ELSE UNION {F("Frame", SameDsBut(r.out[i], r.src[i], {"sup"})) \cup
                (IF r.src[i].type = MA
                 THEN F("Suppliers", SupListOK(r.out[i], r.src, Suppliers(r.T, r.src, i))) \cup F("Annotated", SupAnnotated(r.out[i], r.src))
                 ELSE F("OnlyMarkets", ~r.out[i].hassup)) : i \in 1..Len(r.src)}

(* ---- L04 ---------------------------------------------------------------*)
(* exchanges of o not present (unchanged) in d, assuming d's come first or *)
(* anywhere: match by position of the old ones                             *)
OldKept(o, d) == Len(o.excs) >= Len(d.excs) /\ \A k \in 1..Len(d.excs) : \E j \in 1..Len(o.excs) : SameExcBut(o.excs[j], d.excs[k], {})
NewOf(o, d) == Sel(o.excs, LAMBDA e : \A k \in 1..Len(d.excs) : ~SameExcBut(e, d.excs[k], {}))
Demand(d) == TheRP(d).amt
NoDist(e) == e.unc.type \in {"none", "undefined"}
ShareOK(new, sup, total, name(_)) ==
    LET fed == Fed(sup) IN
    /\ SameBag(Codes(new), [k \in 1..Cardinality(DOMAIN fed) |-> sup[SetToSeq(DOMAIN fed)[k]].code])
    /\ \A k \in DOMAIN fed : \A j \in 1..Len(new) : new[j].code = sup[k].code =>
          RClose(new[j].amt, RMul(fed[k], total)) /\ new[j].type = TI /\ name(new[j]) = name(sup[k])
Sums(new, total) == RCloseS(RSumOver(new, LAMBDA e : e.amt), total, RZero)
L04(r) ==
    IF Rejected(r) THEN {"Accepted"}
    ELSE CASE r.fn = "markets" ->
            IF Len(r.out) # Len(r.src) THEN {"Complete"} ELSE
            UNION {LET d == r.src[i]  o == r.out[i] IN
                IF d.type # r.mkind THEN F("Frame", SameDs(o, d))
                ELSE LET new == NewOf(o, d)  fed == Fed(d.sup) IN
                     F("Frame", SameDsBut(o, d, {"excs", "sup"}) /\ OldKept(o, d) /\ Len(new) = Len(o.excs) - Len(d.excs)) \cup
                     F("Shares", ShareOK(new, d.sup, Demand(d), LAMBDA x : <<x.name, x.unit>>) /\ \A k \in 1..Len(new) : NoDist(new[k])) \cup
                     F("Total", DOMAIN fed # {} => Sums(new, Demand(d))) : i \in 1..Len(r.src)}
      [] r.fn = "split" ->  \* r.pos: the exchange split over the suppliers
            LET d == r.src[1]  o == r.out[1]  x == d.excs[r.pos]  fed == Fed(d.sup)
                others == [k \in 1..(Len(d.excs) - 1) |-> IF k < r.pos THEN d.excs[k] ELSE d.excs[k + 1]]
                rest == [d EXCEPT !.excs = others]
            IN IF DOMAIN fed = {} THEN F("NoVolume", SameExcs(o.excs, d.excs, {}))
               ELSE LET new == NewOf(o, rest) IN
                    F("Frame", SameDsBut(o, d, {"excs", "sup"}) /\ OldKept(o, rest) /\ Len(new) = Cardinality(DOMAIN fed)) \cup
                    F("Shares", ShareOK(new, d.sup, x.amt, LAMBDA e : "")) \cup
                    F("Total", Sums(new, x.amt)) \cup
                    F("Attributes", \A k \in 1..Len(new) : SameExcBut(new[k], x, {"amt", "code", "unc", "type", "attrs"}) /\ new[k].rest = x.rest) \cup
                    F("Uncertainty", \A k \in 1..Len(new) : \A j \in DOMAIN fed :
                        d.sup[j].code = new[k].code => ScaledUnc(x.unc, x.amt, fed[j], new[k].unc, new[k].amt))
      [] OTHER -> {"UnknownFunction"}

(* ---- L05 ---------------------------------------------------------------*)
ExpPV(db, i) == IF db[i].type = MG THEN GroupPV(db, i, 8) ELSE MarketPV(db[i])
ExpTot(db, i) == IF db[i].type = MG
    THEN RSum([k \in 1..Len(db[i].sup) |->
            IF \E j \in Typed(db, MG) : j # i /\ db[j].code = db[i].sup[k].code THEN GroupSupPV(db, i, k, 8) ELSE OrigPV(db[i].sup[k].pv)])
    ELSE MarketOrig(db[i])
L05(r) ==
    IF Rejected(r) THEN {"Accepted"}
    ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
    ELSE UNION {LET d == r.src[i]  o == r.out[i] IN
        IF d.type # r.mkind THEN F("Frame", SameDs(o, d))
        ELSE F("Frame", SameDsBut(o, d, {"excs", "sup"}) /\ Len(o.excs) = Len(d.excs)
                        /\ \A k \in 1..Len(d.excs) : SameExcBut(o.excs[k], d.excs[k], IF IsRP(d.excs[k]) THEN {"pv"} ELSE {})) \cup
             F("NetVolume", RCloseS(TheRP(o).pv.amt, ExpPV(r.src, i), RAbs(SubOf(d)))) \cup
             F("Recorded", RClose(TheRP(o).pv.tot, ExpTot(r.src, i)) /\ RSame(TheRP(o).pv.sub, TheRP(d).pv.sub) /\ RSame(TheRP(o).pv.orig, TheRP(d).pv.orig)) \cup
             F("GroupSuppliers", Len(o.sup) = Len(d.sup) /\ \A k \in 1..Len(d.sup) :
                 o.sup[k].code = d.sup[k].code /\
                 RCloseS(o.sup[k].pv.amt, IF d.type = MG THEN GroupSupPV(r.src, i, k, 8) ELSE d.sup[k].pv.amt, ROne)) : i \in 1..Len(r.src)}

(* ---- L06 ---------------------------------------------------------------*)
L06(r) ==
    IF ~ConsistentNames(r.src) THEN F("Rejected", Rejected(r))
    ELSE IF Rejected(r) THEN {"Accepted"}
    ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
    ELSE UNION {LET d == r.src[i]  o == r.out[i]  p == d.refp  row == RowOf(r.T, r.src, p) IN
        F("Frame", SameDsBut(o, d, {"sup"})) \cup
        (IF d.type # MG THEN F("OnlyGroups", ~o.hassup)
         ELSE LET ls == {o.sup[k].loc : k \in 1..Len(o.sup)} IN
              F("Greedy", ChosenOK(r.T, Faces(r.T, d.loc), GroupCands(r.src, i), ls, row) /\ Cardinality(ls) = Len(o.sup)) \cup
              F("RightKind", \A k \in 1..Len(o.sup) : \E j \in AtLoc(r.src, p, o.sup[k].loc) : SupIs(o.sup[k], r.src[j])) \cup
              F("NotItself", \A k \in 1..Len(o.sup) : o.sup[k].code # d.code)) : i \in 1..Len(r.src)}

(* ---- L07 ---------------------------------------------------------------*)
Gas == "refinery gas"
MissingMarket(db) == \E i \in 1..Len(db) : db[i].type # MG /\ \E k \in 1..Len(db[i].excs) :
    Unlinked(db[i].excs[k]) /\ db[i].excs[k].name # Gas /\ CandLocs(db, db[i].excs[k].name) = {}
ExcById(o, id) == Sel(o.excs, LAMBDA e : e.id = id)
(* exchange e of consumer i is replaced by the sequence new *)
LinkOK(T, db, i, e, new) ==
    LET untouched == Len(new) = 1 /\ SameExcBut(new[1], e, {}) IN
    /\ LinkedOK(T, db, i, e, new, untouched)
    /\ untouched \/ \A k \in 1..Len(new) : SameExcBut(new[k], e, {"amt", "code", "unc", "attrs"}) /\ new[k].rest = e.rest
L07(r) ==
    IF r.fn = "recycled" THEN
        IF Rejected(r) THEN {"Accepted"}
        ELSE UNION {LET d == r.src[i]  o == r.out[i] IN
            F("Frame", SameDsBut(o, d, {"excs"}) /\ Len(o.excs) = Len(d.excs)
                /\ \A k \in 1..Len(d.excs) : SameExcBut(o.excs[k], d.excs[k], {"code"})) \cup
            F("Recycled", Len(o.excs) = Len(d.excs) => \A k \in 1..Len(d.excs) : LET t == RCTargets(r.src, d.excs[k].name) IN
                IF Unlinked(d.excs[k]) /\ Cardinality(t) = 1 THEN o.excs[k].code = r.src[CHOOSE j \in t : TRUE].code
                ELSE o.excs[k].code = d.excs[k].code) : i \in 1..Len(r.src)}
    ELSE
    IF MissingMarket(r.src) THEN F("Rejected", Rejected(r))
    ELSE IF Rejected(r) THEN {"Accepted"}
    ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
    ELSE UNION {LET d == r.src[i]  o == r.out[i] IN
        IF d.type = MG THEN F("GroupsUntouched", SameDs(o, d))
        ELSE F("Frame", SameDsBut(o, d, {"excs", "sup"})) \cup
             F("OnlyInputs", \A k \in 1..Len(d.excs) : ~Unlinked(d.excs[k]) =>
                   LET q == ExcById(o, d.excs[k].id) IN Len(q) = 1 /\ SameExcBut(q[1], d.excs[k], {})) \cup
             F("NothingNew", \A k \in 1..Len(o.excs) : \E j \in 1..Len(d.excs) : d.excs[j].id = o.excs[k].id) \cup
             F("Linked", \A k \in 1..Len(d.excs) : Unlinked(d.excs[k]) =>
                   LET q == ExcById(o, d.excs[k].id) IN
                   IF CandLocs(r.src, d.excs[k].name) = {} THEN Len(q) = 1 /\ SameExcBut(q[1], d.excs[k], {})
                   ELSE LinkOK(r.T, r.src, i, d.excs[k], q)) : i \in 1..Len(r.src)}

(* ---- L08 ---------------------------------------------------------------*)
(* a raw database the linking steps must accept *)
Labelled(db) == [i \in 1..Len(db) |-> [db[i] EXCEPT !.refp = TheRP(db[i]).name]]
Linkable(T, db) ==
    /\ \A i \in 1..Len(db) : Len(RPsOf(db[i])) = 1 /\ IsNum(PVol(db[i]))
    /\ SingleGlobal(db)
    /\ \A i \in 1..Len(db) : db[i].name # "market for refinery gas"  \* deleted by name
    /\ LET x == Relabel(Labelled(db)) IN
       /\ ~MarketsRejected(T, x) /\ ConsistentNames(x)
       /\ \A i, j \in 1..Len(x) : i # j => <<x[i].lkey, x[i].loc>> # <<x[j].lkey, x[j].loc>>
       /\ \A i \in Typed(x, MG) : x[i].loc # "RoW" /\ \E m \in MarketsOf(x, x[i].refp) : x[m].loc # "RoW" /\ Faces(T, x[m].loc) \subseteq Faces(T, x[i].loc)
       /\ \A i \in 1..Len(x) : \A k \in 1..Len(x[i].excs) : LET e == x[i].excs[k] IN
            /\ e.type = TI => \E m \in MarketsOf(x, e.name) : x[m].loc # "RoW"
            /\ e.link # "" => ById(x, e.link) # {}
L08(r) ==
    CASE r.fn = "codes" ->
            LET dup == \E i, j \in 1..Len(r.keys) : i # j /\ r.keys[i] = r.keys[j] IN
            IF dup THEN F("Rejected", Rejected(r))
            ELSE IF Rejected(r) THEN {"Accepted"}
            ELSE F("Unique", \A i, j \in 1..Len(r.keys) : r.keys[i] # r.keys[j] => r.codes[i] # r.codes[j]) \cup
                 F("Determined", r.codes = r.codes2) \cup F("Frame", SameBag(r.frame, r.frame2))
      [] r.fn = "actualize" -> IF Rejected(r) THEN {"Accepted"} ELSE F("HardLinks", SameDb(r.out, Actualize(r.src)))
      [] r.fn = "rpcodes" ->
            IF Rejected(r) THEN {"Accepted"}
            ELSE F("ProductCodes", Len(r.out) = Len(r.src) /\ \A i \in 1..Len(r.src) : SameDsBut(r.out[i], r.src[i], {"excs"}) /\ Len(r.out[i].excs) = Len(r.src[i].excs) /\
                 \A k \in 1..Len(r.src[i].excs) : SameExcBut(r.out[i].excs[k], IF IsRP(r.src[i].excs[k]) THEN [r.src[i].excs[k] EXCEPT !.code = r.src[i].code] ELSE r.src[i].excs[k], {}))
      [] r.fn = "unlinked" -> IF Rejected(r) THEN {"Accepted"} ELSE F("NothingLoose", SameDb(r.out, DropUnlinked(r.src)))
      [] r.fn = "purge" ->
            IF Rejected(r) THEN {"Accepted"}
            ELSE LET ids == {r.out[j].id : j \in 1..Len(r.out)}
                     kept == Sel(r.src, LAMBDA d : d.id \in ids)
                 IN F("Kept", SameDb(r.out, kept)) \cup
                    F("OnlyIdle", \A i \in 1..Len(r.src) : r.src[i].id \notin ids => Idle(r.src, i, r.mkind) /\ r.src[i].code \notin Referenced(r.src))
      [] r.fn = "link" ->
            IF Rejected(r) THEN F("Accepted", ~Linkable(r.T, r.src))
            ELSE F("Unique", Cardinality({r.out[i].code : i \in 1..Len(r.out)}) = Len(r.out) /\ \A i \in 1..Len(r.out) : r.out[i].code # "") \cup
                 F("ProductCodes", \A i \in 1..Len(r.out) : TheRP(r.out[i]).code = r.out[i].code /\ r.out[i].refp = TheRP(r.out[i]).name) \cup
                 F("Resolves", Closed(r.out)) \cup
                 F("NothingLoose", \A i \in 1..Len(r.out) : \A k \in 1..Len(r.out[i].excs) : ~Unlinked(r.out[i].excs[k])) \cup
                 F("HardLinks", \A i \in 1..Len(r.out) : \A k \in 1..Len(r.out[i].excs) : LET e == r.out[i].excs[k]  n == Named(Labelled(r.src), e) IN
                      e.type = TI /\ e.link # "" /\ Cardinality(n) = 1 =>
                      \E j \in 1..Len(r.out) : r.out[j].code = e.code /\ r.out[j].id = e.link /\ r.out[j].refp = e.name)
      [] OTHER -> {"UnknownFunction"}

Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE IF r.skip THEN {}
            ELSE CASE Prop = "L02" -> L02(r) [] Prop = "L03" -> L03(r) [] Prop = "L04" -> L04(r)
                   [] Prop = "L05" -> L05(r) [] Prop = "L06" -> L06(r) [] Prop = "L07" -> L07(r) [] Prop = "L08" -> L08(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
