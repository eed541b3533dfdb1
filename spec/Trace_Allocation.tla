-------------------------- MODULE Trace_Allocation --------------------------
(* Conformance of recorded allocation calls with Allocation.               *)
(* Record: [id, kind, shape, fn, outcome, src, out, after] where src/out   *)
(* are sequences of datasets [id, name, type, attrs, excs, elems] (before  *)
(* and after), after = src re-read after the call.                         *)
EXTENDS Allocation, Uncertainty, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Ix(q, id) == {i \in 1..Len(q) : q[i].id = id}
The(q, id) == q[CHOOSE i \in Ix(q, id) : TRUE]
Scale(d) == RSumOver(d.excs, LAMBDA e : RAdd(RAbs(IF IsNum(e.amt) THEN e.amt ELSE RZero), ROne))
Finite(d) == \A i \in 1..Len(d.excs) : IsNum(d.excs[i].amt)
SameExc(a, b) == a.id = b.id /\ a.name = b.name /\ a.type = b.type /\ a.cls = b.cls /\ RSame(a.amt, b.amt) /\ a.attrs = b.attrs /\ SameUnc(a.unc, b.unc)
SameDS(a, b) == /\ a.id = b.id /\ a.name = b.name /\ a.type = b.type /\ a.attrs = b.attrs
                /\ Len(a.excs) = Len(b.excs)
                /\ \A i \in 1..Len(a.excs) : SameExc(a.excs[i], b.excs[i])

(* output dataset o realizes the allocation choice c made from source d    *)
RPAmount(o, c) == LET q == RPs(o) IN Len(q) = 1 /\ q[1].id = c.rp.id /\ RClose(q[1].amt, RInt(c.sign))
RestAmounts(o, c, sc) == \A i \in 1..Len(c.rest) :
    LET r == c.rest[i]  ii == Ix(o.excs, r.id)
    IN IF ii = {} THEN RSign(r.amt) = 0
       ELSE Cardinality(ii) = 1 /\ RCloseS(The(o.excs, r.id).amt, r.amt, RMul(sc, <<1, 1000>>))
OthersZero(o, c) == \A i \in 1..Len(o.excs) :
    (o.excs[i].id # c.rp.id /\ \A j \in 1..Len(c.rest) : c.rest[j].id # o.excs[i].id)
        => RSign(o.excs[i].amt) = 0 /\ IsNum(o.excs[i].amt) /\ o.excs[i].type \notin {RP, BP, TI}
Frame(o, d, c) == /\ o.attrs = d.attrs /\ o.type = d.type /\ o.id = d.id
                  /\ \A j \in 1..Len(c.rest) : \A i \in Ix(o.excs, c.rest[j].id) : \A k \in Ix(d.excs, c.rest[j].id) :
                        o.excs[i].name = d.excs[k].name /\ o.excs[i].attrs = d.excs[k].attrs
                        /\ o.excs[i].type = d.excs[k].type

(* the sequence of outputs matches the sequence of choices as a bag, by    *)
(* the id of the reference product (distinct within one source)            *)
RPId(o) == IF Len(RPs(o)) = 1 THEN RPs(o)[1].id ELSE "?"
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) :
    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Products(out) == [i \in 1..Len(out) |-> RPId(out[i])]

(* pairs outputs with choices and collects the failing clauses             *)
Judge(out, choices, d, sc) ==
    IF ~SameBag(Products(out), [i \in 1..Len(choices) |-> choices[i].rp.id]) THEN {"Products"}
    ELSE LET ch(o) == choices[CHOOSE i \in 1..Len(choices) : choices[i].rp.id = RPId(o)] IN
         UNION {(IF RPAmount(out[i], ch(out[i])) THEN {} ELSE {"ReferenceAmount"}) \cup
                (IF RestAmounts(out[i], ch(out[i]), sc) THEN {} ELSE {"Amounts"}) \cup
                (IF OthersZero(out[i], ch(out[i])) THEN {} ELSE {"OthersDropped"}) \cup
                (IF Frame(out[i], d, ch(out[i])) THEN {} ELSE {"Frame"}) : i \in 1..Len(out)}

(* conservation, independently of the factors (A03)                        *)
ConservedIn(d, out) == \A i \in 1..Len(d.excs) : ~IsProduction(d.excs[i]) =>
    LET w(o) == LET ii == Ix(o.excs, d.excs[i].id) IN
                IF ii = {} THEN RZero ELSE RMul(The(o.excs, d.excs[i].id).amt, RAbs(The(d.excs, RPId(o)).amt))
    IN RCloseS(RSumOver(out, w), d.excs[i].amt, RMul(Scale(d), <<1, 1000>>))

Rejected(r) == r.outcome # "ok"
Unchanged(r) == Len(r.after) = Len(r.src) /\ \A i \in 1..Len(r.src) : SameDS(r.src[i], r.after[i])

F(name, ok) == IF ok THEN {} ELSE {name}

(* ---- A01 ---------------------------------------------------------------*)
OutsOf(out, id) == SelectSeq(out, LAMBDA o : o.id = id)
A01(r) ==
    IF \E i \in 1..Len(r.src) : ~Valid(r.src[i]) THEN {}
    ELSE IF r.outcome # "ok" THEN {"Accepted"}
    ELSE F("NoForeign", \A i \in 1..Len(r.out) : \E j \in 1..Len(r.src) : r.src[j].id = r.out[i].id) \cup
         F("Finite", \A i \in 1..Len(r.out) : Finite(r.out[i])) \cup
         F("SingleProduct", \A i \in 1..Len(r.out) : Len(NZRPs(r.out[i])) = 1) \cup
         F("NoAllocatable", \A i \in 1..Len(r.out) : Len(NZAllocBPs(r.out[i])) = 0) \cup
         UNION {LET d == r.src[j]  o == OutsOf(r.out, d.id) IN
                F("Covers", SameBag([i \in 1..Len(o) |-> IF Len(NZRPs(o[i])) = 1 THEN NZRPs(o[i])[1].id ELSE "?"], ExpectedProducts(d))) \cup
                F("PassThrough", Method(d) = "single product" => Len(o) = 1 /\ SameDS(o[1], d)) : j \in 1..Len(r.src)}

(* ---- A02 ---------------------------------------------------------------*)
A02(r) ==
    F("Method", r.outcome = "ok" /\ r.label = Method(r.src[1])) \cup
    F("Pure", Unchanged(r)) \cup
    F("Labelled", r.labels = [i \in 1..Len(r.src) |-> Method(r.src[i])])

(* ---- A03 ---------------------------------------------------------------*)
A03(r) ==
    LET d == r.src[1]  ps == Production(d) IN
    IF Usable(ps) THEN
        IF r.outcome # "ok" THEN {"Accepted"}
        ELSE Judge(r.out, Economic(d), d, Scale(d)) \cup
             (IF SameBag(Products(r.out), Ids(ps)) THEN F("Conserved", ConservedIn(d, r.out)) ELSE {})
    ELSE IF ~EconomicValid(ps) THEN F("Rejected", Rejected(r))
    ELSE IF r.outcome = "ok" THEN F("Finite", \A i \in 1..Len(r.out) : Finite(r.out[i])) ELSE {}

(* ---- A04 ---------------------------------------------------------------*)
NonZeroBPs(d) == \A i \in 1..Len(AllocBPs(d)) : NonZero(AllocBPs(d)[i])
A04(r) ==
    LET d == r.src[1] IN
    IF r.fn = "waste" THEN
        IF Len(RPs(d)) # 1 \/ RPs(d)[1].cls # "waste" \/ RSign(RPs(d)[1].amt) >= 0 THEN F("Rejected", Rejected(r))
        ELSE IF ~NonZeroBPs(d) THEN {}
        ELSE IF r.outcome # "ok" THEN {"Accepted"}
        ELSE Judge(r.out, WasteTreatment(d), d, Scale(d)) \cup
             UNION {F("BurdenFree", RPId(r.out[i]) # RPs(d)[1].id => Len(r.out[i].excs) = 1) : i \in 1..Len(r.out)}
    ELSE
        IF Len(RPs(d)) # 1 \/ RSign(RPs(d)[1].amt) >= 0 \/ Len(AllocBPs(d)) = 0 \/ ~EconomicValid(AllocBPs(d))
        THEN F("Rejected", Rejected(r))
        ELSE IF ~Usable(AllocBPs(d)) THEN IF r.outcome = "ok" THEN F("Finite", \A i \in 1..Len(r.out) : Finite(r.out[i])) ELSE {}
        ELSE IF r.outcome # "ok" THEN {"Accepted"}
        ELSE Judge(r.out, Recycling(d), Recycled(d), Scale(d)) \cup
             (IF SameBag(Products(r.out), Ids(AllocBPs(d))) THEN F("Conserved", ConservedIn(Recycled(d), r.out)) ELSE {})

(* ---- A05 ---------------------------------------------------------------*)
(* subdivision: one output per nonzero reference product                   *)
SubMatch(o, sub, r, sc) ==
    F("ReferenceAmount", RClose((RPs(o)[1]).amt, r.amt)) \cup
    F("OthersZero", \A i \in 1..Len(o.excs) : \A k \in Ix(sub.excs, o.excs[i].id) :
        sub.excs[k].type = DROP => RSign(o.excs[i].amt) = 0 /\ IsNum(o.excs[i].amt) /\ o.excs[i].type # RP) \cup
    F("Formulas", \A k \in 1..Len(sub.excs) : sub.excs[k].type \notin {DROP, RP} =>
        Cardinality(Ix(o.excs, sub.excs[k].id)) = 1 /\
        LET x == The(o.excs, sub.excs[k].id) IN
        /\ RCloseS(x.amt, sub.excs[k].amt, sc) /\ x.type = sub.excs[k].type /\ x.attrs = sub.excs[k].attrs
        /\ (IsNum(sub.excs[k].price) => RCloseS(x.price, sub.excs[k].price, sc))) \cup
    F("Frame", o.id = sub.id /\ o.name = sub.name /\ o.attrs = sub.attrs /\ Range(Ids(o.excs)) \subseteq Range(Ids(sub.excs)))

MergedOK(o, parts, d, sc) ==
    LET pid == RPId(o) IN
    F("MergedReference", RClose(RPs(o)[1].amt, MergedRP(parts, pid))) \cup
    F("Merged", \A i \in 1..Len(o.excs) : o.excs[i].id # pid =>
                  RCloseS(o.excs[i].amt, MergedAmount(parts, pid, o.excs[i].id), sc)) \cup
    F("MergedComplete", \A k \in 1..Len(d.excs) :
        (~IsProduction(d.excs[k]) /\ RSign(MergedAmount(parts, pid, d.excs[k].id)) # 0) => Cardinality(Ix(o.excs, d.excs[k].id)) = 1)

NPKey(o) == <<o.name, RPId(o)>>
A05(r) ==
    LET d == r.src[1]  sc == Scale(d) IN
    IF ~WellParam(d) THEN {}
    ELSE F("SourceUnchanged", r.fn = "combined" => Unchanged(r)) \cup
    (CASE r.fn = "combined" ->
          IF r.outcome # "ok" THEN {"Accepted"}
          ELSE IF ~SameBag(Products(r.out), Ids(NZRPs(d))) THEN {"Products"}
          ELSE UNION {LET p == The(d.excs, RPId(r.out[i])) IN SubMatch(r.out[i], Subdivide(d, p), p, sc) : i \in 1..Len(r.out)}
       [] r.fn = "combinedb" ->
          IF ~Valid(d) THEN {}
          ELSE IF r.outcome # "ok" THEN {"Accepted"}
          ELSE LET parts == SubAllocated(d) IN
               IF ~SameBag(Products(r.out), Ids(NZRPs(d)) \o Ids(AllocBPs(d))) THEN {"Products"}
               ELSE UNION {MergedOK(r.out[i], parts, d, sc) : i \in 1..Len(r.out)}
       [] r.fn = "combinednp" ->
          IF \E k \in 1..Len(NZRPs(d)) : NZRPs(d)[k].cls \notin {"waste", "recyclable"} \/ RSign(NZRPs(d)[k].amt) > 0
          THEN F("Rejected", Rejected(r))
          ELSE IF \E k \in 1..Len(NZRPs(d)) : ~ValidPart(d, NZRPs(d)[k]) THEN {}
          ELSE IF r.outcome # "ok" THEN {"Accepted"}
          ELSE LET ps == PartsNP(d) IN
               IF ~SameBag([i \in 1..Len(r.out) |-> NPKey(r.out[i])], [i \in 1..Len(ps) |-> <<ps[i].nm, ps[i].ch.rp.id>>]) THEN {"PartProducts"}
               ELSE UNION {LET p == ps[CHOOSE k \in 1..Len(ps) : <<ps[k].nm, ps[k].ch.rp.id>> = NPKey(r.out[i])] IN
                           F("ReferenceAmount", RPAmount(r.out[i], p.ch)) \cup
                           F("PartAmounts", RestAmounts(r.out[i], p.ch, sc)) : i \in 1..Len(r.out)}
       [] OTHER -> {"UnknownFunction"})

(* ---- A06 ---------------------------------------------------------------*)
A06(r) ==
    LET d == r.src[1] IN
    IF ~Normalizable(d) THEN F("Rejected", Rejected(r))
    ELSE IF r.outcome # "ok" THEN {"Accepted"}
    ELSE IF Len(r.out) # 1 \/ Len(r.out[1].excs) # Len(d.excs) THEN {"OneDataset"}
    ELSE LET o == r.out[1]  k == NormFactor(d) IN
         F("Unit", RClose(RPs(o)[1].amt, RInt(RSign(RPs(d)[1].amt)))) \cup
         F("Ratios", \A i \in 1..Len(d.excs) : RClose(o.excs[i].amt, RMul(d.excs[i].amt, k))) \cup
         F("Uncertainty", \A i \in 1..Len(d.excs) : ScaledUnc(d.excs[i].unc, d.excs[i].amt, k, o.excs[i].unc, o.excs[i].amt)) \cup
         F("Frame", /\ o.attrs = d.attrs /\ o.name = d.name /\ o.type = d.type /\ o.id = d.id
                    /\ \A i \in 1..Len(d.excs) : o.excs[i].id = d.excs[i].id /\ o.excs[i].name = d.excs[i].name
                          /\ o.excs[i].type = d.excs[i].type /\ o.excs[i].cls = d.excs[i].cls /\ o.excs[i].attrs = d.excs[i].attrs)

Fails(r) ==
    IF r.shape # "ok" THEN {"WellFormed"}
    ELSE CASE Prop = "A01" -> A01(r) [] Prop = "A02" -> A02(r) [] Prop = "A03" -> A03(r)
           [] Prop = "A04" -> A04(r) [] Prop = "A05" -> A05(r) [] Prop = "A06" -> A06(r)

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
