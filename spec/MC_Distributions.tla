------------------------- MODULE MC_Distributions --------------------------
(* Design check: scaling is an action of the factors, keeps consistency;   *)
(* repair reaches a consistent object in one step; ageing only raises.     *)
EXTENDS Distributions, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
Amts == {RInt(-3), RZero, ROne, <<1, 2>>, RInt(4)} \cup (IF Deep THEN {RInt(-1), <<7, 3>>} ELSE {})
Bnd == {RInt(-3), RInt(-1), RZero, ROne, RInt(3)} \cup (IF Deep THEN {RInt(4), <<1, 2>>} ELSE {})
Vars == {RZero, <<1, 4>>, ROne, RInt(2), RInt(4)}
U(t) == [NoUnc EXCEPT !.type = t]
Dists(a) == {NoUnc}
    \cup {[U("lognormal") EXCEPT !.mean = m, !.mu = RZero, !.neg = n, !.var = v, !.varp = v] : m \in {ROne, RInt(-3)}, n \in {"T", "F", "-"}, v \in Vars}
    \cup {[U("normal") EXCEPT !.mean = m, !.var = v, !.varp = v] : m \in {ROne, a}, v \in Vars}
    \cup {[U("triangular") EXCEPT !.min = l, !.mode = m, !.max = h] : l \in Bnd, h \in Bnd, m \in {a, RInt(7)}}
    \cup {[U(t) EXCEPT !.min = l, !.max = h] : t \in {"uniform", "undefined"}, l \in Bnd, h \in Bnd}
Raw == UNION {{[a |-> a, u |-> u] : u \in Dists(a)} : a \in Amts}
Good == {Repair(o, RZero) : o \in {x \in Raw : Repairable(x) /\ x.u.varp # RInt(2)}}
Factors == {RInt(-2), RInt(-1), RZero, <<1, 2>>, ROne, RInt(3)}
Ks == {RZero, <<1, 4>>, <<1, 2>>, <<3, 2>>, ROne, RInt(2), RInt(3), RInt(6)} \cup (IF Deep THEN {<<3, 4>>, <<9, 2>>, RInt(4), RInt(9), RInt(18)} ELSE {})
Space == IF Prop \in {"U01", "U04"} THEN Good ELSE IF Prop = "U02" THEN Raw ELSE {[a |-> ROne, u |-> NoUnc]}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES o, src, k, age
vars == <<o, src, k, age>>
Init == o \in Space /\ src = o /\ k = ROne /\ age \in (IF Prop = "U03" THEN {<<c, 0>> : c \in 1..5} ELSE {<<1, 0>>})
DoScale == Prop \in {"U01", "U04"} /\ \E f \in Factors : RSign(k) # 0 /\ RAbs(RMul(k, f)) \in Ks /\ o' = Scale(o, f) /\ k' = RMul(k, f) /\ UNCHANGED <<src, age>>
DoRepair == Prop = "U02" /\ Repairable(o) /\ o' = Repair(o, RZero) /\ UNCHANGED <<src, k, age>>
DoAge == Prop = "U03" /\ age[2] < 20 /\ age' = <<Aged(age[1], age[2] + 1), age[2] + 1>> /\ UNCHANGED <<o, src, k>>
Next == DoScale \/ DoRepair \/ DoAge
(* U01 *)
Action == Prop = "U01" /\ RSign(k) # 0 => ScaledUnc(src.u, src.a, k, WithMu(o).u, o.a) /\ RClose(o.a, RMul(src.a, k))
Composes == Prop = "U01" /\ RSign(k) # 0 => LET d == Scale(src, k) IN RClose(d.a, o.a) /\ d.u.type = o.u.type /\
    \A x \in {"mean", "var", "varp", "min", "mode", "max"} : RSame(d.u[x], o.u[x])
StaysConsistent == Prop = "U01" /\ RSign(k) # 0 => Consistent(WithMu(o))
ZeroPlain == Prop = "U01" /\ RSign(k) = 0 => RSign(o.a) = 0 /\ Degenerate(o.u)
(* U04: scaling what is handed over is handing over what is scaled *)
Times2(a, b) == IF IsNum(a) /\ IsNum(b) THEN RMul(a, b) ELSE NaR
ScaledStats(s, f) == LET neg == RSign(f) < 0 IN
    [s EXCEPT !.amt = Times2(@, f), !.loc = IF s.type = "lognormal" THEN @ ELSE Times2(@, f), !.spread = IF s.type = "lognormal" THEN @ ELSE Times2(@, RMul(f, f)),
              !.min = Times2(IF neg THEN s.max ELSE @, f), !.max = Times2(IF neg THEN s.min ELSE @, f),
              !.neg = IF s.type = "lognormal" THEN (IF neg THEN (IF @ = "T" THEN "F" ELSE "T") ELSE @) ELSE @]
HandedOver == Prop = "U04" /\ RSign(k) # 0 => LET a == Stats(o)  b == ScaledStats(Stats(src), k) IN
    a.type = b.type /\ a.neg = b.neg /\ \A x \in {"amt", "loc", "spread", "min", "max"} : RSame(a[x], b[x])
(* the amount lies where samples can be *)
Covered == Prop = "U04" => LET s == Stats(o) IN (IsNum(s.min) => RLe(s.min, o.a) /\ RLe(o.a, s.max) /\ RLt(s.min, s.max)) /\ (IsNum(s.spread) => RSign(s.spread) > 0)
(* U02 *)
RepairConsistent == Prop = "U02" /\ Repairable(src) => Consistent(WithMu(Repair(src, RZero)))
RepairOnce == Prop = "U02" /\ Repairable(src) => LET x == Repair(src, RZero) IN Repairable(x) /\ Repaired(x, RZero, WithMu(x))
RepairSmall == Prop = "U02" /\ Repairable(src) => LET x == Repair(src, RZero) IN x.u.type = "lognormal" => RLt(x.u.var, ROne)
AmountKept == Prop = "U02" => o.a = src.a
(* U03 *)
ScoreRange == age[1] \in 1..5
ASSUME Monotone == \A c \in 1..5, d \in 0..20 : Aged(c, d) >= c /\ Aged(c, d + 1) >= Aged(c, d) /\ (c < 5 => Aged(c + 1, d) >= Aged(c, d))
ASSUME MoreVariance == \A v \in {"original", "ciroth"} : \A i \in DOMAIN Tables[v] : \A s \in 1..4 : Tables[v][i][s] <= Tables[v][i][s + 1]
=============================================================================
