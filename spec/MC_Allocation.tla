--------------------------- MODULE MC_Allocation ---------------------------
(* Exhaustive check of the allocation design on small datasets, as a state *)
(* machine raw -> labelled -> allocated, and source of replay scenarios.   *)
EXTENDS Allocation, TLC, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"

E(id, type, cls, amt, price, tv, cond) ==
    [id |-> id, name |-> id, type |-> type, cls |-> cls, amt |-> amt, price |-> price, tv |-> tv, cond |-> cond]
DS(type, excs, elems) == [id |-> "d", name |-> "act", type |-> type, excs |-> excs, elems |-> elems]
In(a) == E("x1", TI, "none", a, NaR, NaR, FALSE)
Em(a) == E("x2", "to environment", "none", a, NaR, NaR, FALSE)

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* ---- scenario spaces --------------------------------------------------*)
RPKinds == {<<c, a>> : c \in {ALLOC, "waste", "recyclable", "none"}, a \in {-1, 0, 1}}
BPKinds == {<<c, a, k>> : c \in {ALLOC, "waste", "recyclable"}, a \in {-1, 0, 1}, k \in BOOLEAN}
MethodSpace ==
    {DS(t, [i \in 1..Len(r) |-> E("p" \o ToString(i), RP, r[i][1], RInt(r[i][2]), RInt(1), NaR, FALSE)] \o
           [i \in 1..Len(b) |-> E("b" \o ToString(i), BP, b[i][1], RInt(b[i][2]), RInt(1), NaR, b[i][3])] \o <<In(RInt(1))>>, <<>>) :
        t \in {"transforming activity", "market activity", "market group"},
        r \in Upto(RPKinds, 2), b \in Upto(BPKinds, 1)}

Outs == {<<p, a, v>> : p \in {0, 1, 3}, a \in {1, 2}, v \in {NaR, <<1, 1>>, <<1, 2>>}}
EconSpace ==
    {DS("transforming activity",
        [i \in 1..Len(o) |-> E("p" \o ToString(i), IF i = 1 THEN RP ELSE BP, ALLOC, RInt(o[i][2]), RInt(o[i][1]), o[i][3], FALSE)]
          \o <<In(RInt(4)), Em(<<-3, 2>>)>>, <<>>) :
        o \in Upto(Outs, IF Deep THEN 3 ELSE 2) \ {<<>>}}

WasteSpace ==
    {DS("transforming activity",
        <<E("w", RP, c, RInt(a), NaR, NaR, FALSE)>> \o
        [i \in 1..Len(b) |-> E("b" \o ToString(i), BP, b[i][1], RInt(b[i][2]), RInt(b[i][3]), NaR, FALSE)] \o
        <<In(RInt(4)), Em(<<3, 2>>)>>, <<>>) :
        c \in {"waste", "recyclable", ALLOC}, a \in {-1, -2},
        b \in Upto({<<c2, a2, p2>> : c2 \in {ALLOC, "waste", "recyclable"}, a2 \in {1, 3}, p2 \in {1, 2}}, 2)}

(* combined production: every exchange is a linear form c1*v1 + c2*v2 (+ c0) *)
Lin(c) == <<"+", <<"+", <<"*", <<"n", RInt(c[1])>>, <<"v", "v1">>>>, <<"*", <<"n", RInt(c[2])>>, <<"v", "v2">>>>>>, <<"n", RInt(c[3])>>>>
LinVal(c, a1, a2) == RInt(c[1] * a1 + c[2] * a2 + c[3])
CombSpace ==
    {DS("transforming activity",
        <<E("p1", RP, k[1], RInt(a1), RInt(1), NaR, FALSE), E("p2", RP, k[2], RInt(a2), RInt(2), NaR, FALSE)>> \o
        (IF bp THEN <<E("b1", BP, ALLOC, LinVal(<<1, 2, 0>>, a1, a2), RInt(3), NaR, FALSE)>> ELSE <<>>) \o
        <<E("x1", TI, "none", LinVal(c, a1, a2), NaR, NaR, FALSE), Em(RInt(7))>>,
        <<[key |-> "p1", var |-> "v1", hasf |-> FALSE, f |-> <<"n", RZero>>, amt |-> RInt(a1)],
          [key |-> "p2", var |-> "v2", hasf |-> FALSE, f |-> <<"n", RZero>>, amt |-> RInt(a2)],
          [key |-> "x1", var |-> "", hasf |-> TRUE, f |-> Lin(c), amt |-> LinVal(c, a1, a2)]>> \o
        (IF bp THEN <<[key |-> "b1", var |-> "", hasf |-> TRUE, f |-> Lin(<<1, 2, 0>>), amt |-> LinVal(<<1, 2, 0>>, a1, a2)]>> ELSE <<>>)) :
        a1 \in {1, 2}, a2 \in {1, 3}, bp \in BOOLEAN,
        k \in {<<ALLOC, ALLOC>>, <<ALLOC, "none">>},
        c \in [1..3 -> 0..2]}

Space == CASE Prop = "A02" -> MethodSpace
           [] Prop = "A03" -> EconSpace
           [] Prop = "A04" -> WasteSpace
           [] Prop = "A05" -> CombSpace
           [] OTHER -> MethodSpace \cup EconSpace \cup WasteSpace \cup CombSpace

ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

(* ---- state machine ----------------------------------------------------*)
VARIABLES ds, phase, label, out
vars == <<ds, phase, label, out>>
Init == ds \in Space /\ phase = "raw" /\ label = "" /\ out = <<>>
Label == phase = "raw" /\ label' = Method(ds) /\ phase' = "labelled" /\ UNCHANGED <<ds, out>>
Do(ms, res) == phase = "labelled" /\ label \in ms /\ out' = res /\ phase' = "done" /\ UNCHANGED <<ds, label>>
DoEconomic  == Usable(Production(ds)) /\ Do({"economic"}, Economic(ds))
DoWaste     == Len(RPs(ds)) = 1 /\ Do({"waste treatment"}, WasteTreatment(ds))
DoRecycling == Len(RPs(ds)) = 1 /\ Usable(Production(Recycled(ds))) /\ Do({"recycling"}, Recycling(ds))
DoCombined  == ds.elems # <<>> /\ Do({"combined production"}, [k \in 1..Len(NZRPs(ds)) |-> Choose(Subdivisions(ds)[k], NZRPs(ds)[k], ROne)])
DoCombinedB == ds.elems # <<>> /\ Do({"combined production with byproducts"}, SubAllocated(ds))
Reject      == phase = "labelled" /\ ~(ENABLED (DoEconomic \/ DoWaste \/ DoRecycling \/ DoCombined \/ DoCombinedB))
               /\ phase' = "passed" /\ UNCHANGED <<ds, label, out>>
Next == Label \/ DoEconomic \/ DoWaste \/ DoRecycling \/ DoCombined \/ DoCombinedB \/ Reject \/ (phase \in {"done", "passed"} /\ UNCHANGED vars)

(* ---- properties -------------------------------------------------------*)
TotalChoice == phase # "raw" => label \in Methods
OrderFree == phase = "labelled" => Method([ds EXCEPT !.excs = Reverse(@)]) = label
(* every product once *)
Covers == phase = "done" /\ label # "combined production with byproducts" =>
    [i \in 1..Len(out) |-> out[i].rp.id] = ExpectedProducts(ds)
SharesSumToOne == phase = "done" /\ label = "economic" =>
    REq(RSumOver(Production(ds), LAMBDA p : Factor(Production(ds), p)), ROne)
RestAmt(q, xid) == LET ii == {i \in 1..Len(q.rest) : q.rest[i].id = xid} IN
                   IF ii = {} THEN RZero ELSE q.rest[CHOOSE i \in ii : TRUE].amt
Weighted(q, xid) == RMul(RestAmt(q, xid), RAbs(q.rp.amt))
Total(xid) == RSumOver(out, LAMBDA q : Weighted(q, xid))
Amount(d, xid) == (CHOOSE i \in 1..Len(d.excs) : d.excs[i].id = xid)
(* conservation of every non-production flow *)
Conserved == phase = "done" /\ label \in {"economic", "waste treatment", "recycling"} =>
    \A i \in 1..Len(ds.excs) : ~IsProduction(ds.excs[i]) => REq(Total(ds.excs[i].id), ds.excs[i].amt)
(* the recycled material is consumed in full by the products *)
RecycledConsumed == phase = "done" /\ label = "recycling" => REq(Total(RPs(ds)[1].id), RNeg(RPs(ds)[1].amt))
FreeByproducts == phase = "done" /\ label = "waste treatment" =>
    \A i \in 2..Len(out) : out[i].rest = <<>>
(* with linear homogeneous formulas subdivision conserves the flows *)
Homogeneous == \A i \in 1..Len(ds.elems) : ds.elems[i].hasf => ds.elems[i].f[3][2] = RZero
LinearConserved == phase = "done" /\ label = "combined production" /\ Homogeneous =>
    \A i \in 1..Len(ds.excs) : ds.excs[i].id = "x1" => REq(Total("x1"), ds.excs[i].amt)
=============================================================================
