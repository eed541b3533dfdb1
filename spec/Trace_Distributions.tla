------------------------ MODULE Trace_Distributions ------------------------
(* Conformance for U01-U04.                                                *)
EXTENDS Distributions, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
F(name, ok) == IF ok THEN {} ELSE {name}
OkUnc(o, k, o2) == IF REq(k, ROne) THEN SameUnc(o.u, o2.u)
                   ELSE IF o.u.type = "uniform" /\ RSign(k) # 0 /\ o2.u.type = "triangular"
                        THEN ~SurelyMid(o2.u, o2.a) /\ RClose(o2.u.min, Lo(o.u, k)) /\ RClose(o2.u.max, Hi(o.u, k)) /\ RClose(o2.u.mode, o2.a)
                   ELSE ScaledUnc(o.u, o.a, k, o2.u, o2.a)
(* steps: the object after each factor; joint: scaled once by the product *)
U01(r) ==
    IF r.outcome # "ok" THEN {"Accepted"}
    ELSE LET st(i) == IF i = 0 THEN r.src ELSE r.steps[i]  n == Len(r.steps) IN
         F("Amount", \A i \in 1..n : RClose(st(i).a, RMul(st(i - 1).a, r.ks[i]))) \cup
         F("Distribution", \A i \in 1..n : OkUnc(st(i - 1), r.ks[i], st(i))) \cup
         F("Ordered", \A i \in 1..n : IsNum(st(i).u.min) /\ IsNum(st(i).u.max) /\ RLe(r.src.u.min, r.src.u.max) => RLe(st(i).u.min, st(i).u.max)) \cup
         F("Frame", \A i \in 1..n : r.rest[i] = r.rest0) \cup
         F("Composes", LET o == st(n)  j == r.joint IN RSame(o.a, j.a) /\ o.u.type = j.u.type /\ (o.u.neg = "T") = (j.u.neg = "T") /\
              \A x \in {"mean", "var", "varp", "min", "mode", "max"} : RSame(o.u[x], j.u[x]))
Obj(x) == [a |-> x.a, u |-> x.u]
U02(r) ==
    LET n == Len(r.src)  impossible == \E i \in 1..n : ~Repairable(Obj(r.src[i])) IN
    IF r.outcome # "ok" THEN F("Accepted", impossible)
    ELSE IF Len(r.out) # n THEN {"Complete"}
    ELSE F("Repaired", \A i \in 1..n : Repairable(Obj(r.src[i])) => Repaired(Obj(r.src[i]), r.src[i].ped, Obj(r.out[i]))) \cup
         F("Consistent", \A i \in 1..n : Repairable(Obj(r.src[i])) => Consistent(Obj(r.out[i]))) \cup
         F("Once", \A i \in 1..n : SameUnc(r.out[i].u, r.twice[i].u) /\ RSame(r.out[i].a, r.twice[i].a)) \cup
         F("Frame", r.frame = r.frame2)
Dist(a, b) == IF a < b THEN b - a ELSE a - b
U03(r) ==
    IF r.outcome # "ok" THEN {"Accepted"}
    ELSE CASE r.fn = "variance" -> F("Sum", RClose(r.value, PedVariance(r.pm, r.version)) \/ (RSign(r.value) = 0 /\ RSign(PedVariance(r.pm, r.version)) = 0))
      [] r.fn = "adjust" ->
            IF ~r.haspm THEN F("Untouched", SameUnc(r.u, r.u2) /\ ~r.haspm2) \cup F("Frame", r.frame = r.frame2)
            ELSE LET d == Dist(r.end, r.year)  e == [r.pm EXCEPT !["temporal"] = Aged(@, d)] IN
                 F("Score", r.pm2 = e) \cup F("Frame", r.frame = r.frame2) \cup
                 F("Variance", IF r.u.type # "lognormal" THEN SameUnc(r.u, r.u2)
                               ELSE SameUnc(r.u2, [r.u EXCEPT !.varp = RAdd(r.u.var, PedVariance(e, "original"))]))
      [] OTHER -> {"UnknownFunction"}
U04(r) ==
    IF r.outcome # "ok" THEN {"Accepted"}
    ELSE IF ~Consistent(IF r.src.u.type = "lognormal" /\ r.src.u.neg = "-" THEN [r.src EXCEPT !.u.neg = NegFlag(r.src.a)] ELSE r.src) THEN {}     \* files have no sign flag
    ELSE F("Parameters", StatsOK(r.src, r.stats)) \cup F("Draws", r.draws.n = 200 /\ DrawsOK(r.src, r.draws)) \cup F("Untouched", SameUnc(r.src.u, r.after.u) /\ RSame(r.src.a, r.after.a))
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE CASE Prop = "U01" -> U01(r) [] Prop = "U02" -> U02(r) [] Prop = "U03" -> U03(r) [] Prop = "U04" -> U04(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
