------------------------- MODULE Trace_Parameters --------------------------
(* Conformance for F01-F03.                                                *)
EXTENDS Parameters, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
F(name, ok) == IF ok THEN {} ELSE {name}

F01(r) ==
    IF r.outcome # "ok" THEN {"Accepted"}
    ELSE LET n == Len(r.elems)  m == Len(r.names)
             idx(x) == CHOOSE j \in 1..m : r.names[j].src = x
             env(k) == [x \in {r.names[j].src : j \in 1..m} |-> r.envs[k][idx(x)]]
             plain(e) == ~Dialect(e.f) /\ ~e.crlf /\ \A x \in Vars(e.f) : r.names[idx(x)].low \notin Reserved
         IN IF Len(r.out) # n \/ (\E j \in 1..m : r.bind[j] # Target(r.names[j])) THEN {"Complete"}
            ELSE F("Kept", \A i \in 1..n : r.out[i].hasf = (r.elems[i].kind = "ok")) \cup
                 F("Named", \A i \in 1..n : r.out[i].var = (IF r.elems[i].var = "" THEN "" ELSE Target(r.elems[i].v))) \cup
                 F("Meaning", \A i \in 1..n : r.elems[i].kind = "ok" /\ r.out[i].hasf => \A k \in 1..Len(r.envs) :
                       LET v == Eval(r.elems[i].f, env(k)) IN IsNum(v) => IF r.known THEN IsNum(r.out[i].vals[k]) /\ RLe(RAbs(RSub(v, r.out[i].vals[k])), RMul(<<1, 100000>>, RAbs(v)))
                                                                          ELSE RNear(r.out[i].vals[k], v)) \cup
                 F("Unchanged", \A i \in 1..n : r.elems[i].kind = "ok" /\ r.out[i].hasf /\ ~r.known /\ plain(r.elems[i]) => r.out[i].text = r.elems[i].low) \cup
                 F("Amounts", r.amts = r.amts2) \cup
                 F("Frame", r.frame = r.frame2)

Obj(x) == [a |-> x.a, u |-> x.u]
Final2(d, i) == IF d.src[i].el = 0 THEN d.src[i].a ELSE ElemValue(d.elems, d.src[i].el)
Now(d, i) == [a |-> Final2(d, i), u |-> d.src[i].u]
F02ds(d) ==
    LET n == Len(d.src)  good == Acceptable(d.elems) IN
    IF d.outcome # "ok" THEN F("Accepted", ~good \/ \E i \in 1..n : ~Repairable(Now(d, i)))
    ELSE IF ~good THEN {"Rejected"}
    ELSE IF Len(d.out) # n \/ Len(d.twice) # n THEN {"Complete"}
    ELSE F("Values", \A i \in 1..n : RSame(d.out[i].a, Final2(d, i))) \cup
         F("Uncertainty", \A i \in 1..n : Repairable(Now(d, i)) => Repaired(Now(d, i), d.src[i].ped, [a |-> Final2(d, i), u |-> d.out[i].u])) \cup
         F("Once", \A i \in 1..n : RSame(d.out[i].a, d.twice[i].a) /\ SameUnc(d.out[i].u, d.twice[i].u)) \cup
         F("Frame", d.frame = d.frame2)
F02(r) ==
    IF r.outcome = "ok" THEN UNION {F02ds(r.dss[k]) : k \in 1..Len(r.dss)}
    ELSE F("AllAccepted", \E k \in 1..Len(r.dss) : \E i \in 1..Len(r.dss[k].src) : Acceptable(r.dss[k].elems) /\ ~Repairable(Now(r.dss[k], i)))

F03ds(d, vals, out) ==
    LET n == Len(d) IN
    IF Len(out) # n THEN {"Complete"}
    ELSE F("Kept", \A i \in 1..n : out[i].hasf = d[i].hasf) \cup
         F("Reused", \A i \in 1..n : d[i].var # "" => out[i].var = d[i].var) \cup
         F("OnlyReferenced", \A i \in 1..n : d[i].var = "" => (out[i].var # "") = (<<d[i].kind, d[i].id>> \in AllRefs(d))) \cup
         F("Fresh", \A i, j \in 1..n : i # j /\ d[i].var = "" /\ out[i].var # "" => out[i].var # out[j].var) \cup
         F("Denotes", ~DuplicateNames(d) => \A i \in 1..n : d[i].hasf => LET v == Denotes(d[i].f, d, vals) IN IsNum(v) => RNear(out[i].val, v))
F03(r) ==
    LET m == Len(r.dss)  good == \A k \in 1..m : Resolvable(r.dss[k]) IN
    F("Unique", (r.unique = "ok") = (\A k \in 1..m : ~DuplicateNames(r.dss[k]))) \cup F("UniqueFrame", r.uniquesame) \cup
    (IF r.outcome # "ok" THEN F("Accepted", ~good)
     ELSE IF ~good THEN {"Rejected"}
     ELSE IF Len(r.out) # m THEN {"Complete"}
     ELSE UNION {F03ds(r.dss[k], r.vals[k], r.out[k]) : k \in 1..m} \cup F("Frame", r.frame = r.frame2))

Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE CASE Prop = "F01" -> F01(r) [] Prop = "F02" -> F02(r) [] Prop = "F03" -> F03(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
