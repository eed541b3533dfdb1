------------------------- MODULE Trace_SystemModels -------------------------
(* Conformance for W01, W02, Q01, Q02.                                     *)
EXTENDS SystemModels, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Rejected(r) == r.outcome # "ok"
FOK(a, b) == RSame(a.fv, b.fv) \/ (IsNum(a.fv) /\ IsNum(b.fv) /\ RClose(a.fv, b.fv))
SameE(a, b, but) == SameExcBut(a, b, but \cup {"f"}) /\ FOK(a, b)
SameD(a, b, but) == SameDsBut(a, b, {"excs"}) /\ Len(a.excs) = Len(b.excs) /\ \A k \in 1..Len(a.excs) : SameE(a.excs[k], b.excs[k], but)
SameB(a, b, but) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameD(a[i], b[i], but)

(* the distribution of o is that of s brought to the expected amount x *)
Mirrored(s, x, o) == IF RSame(s.amt, x) /\ RSign(x) # 0 THEN ScaledUnc(s.unc, s.amt, ROne, o.unc, o.amt)
                     ELSE RSign(x) = 0 \/ ScaledUnc(s.unc, s.amt, RNeg(ROne), o.unc, o.amt)

W01(r) ==
    IF Rejected(r) THEN {"Accepted"}
    ELSE CASE r.fn = "handle" ->
            LET e == RenameRC(r.src)  n == Len(e)  new == SubSeq(r.out, n + 1, Len(r.out))  ps == RCProducts(e) IN
            IF Len(r.out) < n THEN {"Complete"}
            ELSE F("Renamed", SameB(SubSeq(r.out, 1, n), e, {})) \cup
                 F("OneSource", Len(new) = Cardinality(ps) /\ \A p \in ps : \E k \in 1..Len(new) : FreeSource(new[k], p)) \cup
                 F("Unit", \A k \in 1..Len(new) : \E i \in 1..n : \E j \in 1..Len(e[i].excs) :
                       e[i].excs[j].name = new[k].name /\ IsRecyclable(e[i].excs[j]) /\ e[i].excs[j].unit = new[k].excs[1].unit)
      [] r.fn = "strip" -> F("Stripped", SameB(r.out, StripNames(r.src), {}))
      [] OTHER -> {"UnknownFunction"}
W02(r) ==
    IF Rejected(r) THEN {"Accepted"}
    ELSE CASE r.fn = "flip" -> LET e == FlipOutputs(r.src) IN
            IF Len(r.out) # Len(e) THEN {"Complete"}
            ELSE F("Flipped", \A i \in 1..Len(e) : SameDsBut(r.out[i], e[i], {"excs"}) /\ Len(r.out[i].excs) = Len(e[i].excs) /\
                    \A k \in 1..Len(e[i].excs) : SameE(r.out[i].excs[k], e[i].excs[k], IF IsFlipped(r.src[i].excs[k]) THEN {"unc"} ELSE {})) \cup
                 F("Uncertainty", \A i \in 1..Len(e) : Len(r.out[i].excs) = Len(e[i].excs) /\ \A k \in 1..Len(e[i].excs) : Mirrored(r.src[i].excs[k], e[i].excs[k].amt, r.out[i].excs[k]))
      [] r.fn = "signs" ->
            IF Len(r.out) # Len(r.src) THEN {"Complete"}
            ELSE UNION {LET d == r.src[i]  o == r.out[i]  neg == Negated(d) IN
                 IF Len(o.excs) # Len(d.excs) THEN {"Complete"}
                 ELSE F("Frame", SameDsBut(o, d, {"excs"}) /\ \A k \in 1..Len(d.excs) :
                          IF k \in neg THEN SameExcBut(o.excs[k], d.excs[k], {"amt", "unc", "f"}) ELSE SameExcBut(o.excs[k], d.excs[k], {})) \cup
                      F("Signs", \A k \in neg : RSame(o.excs[k].amt, RNeg(d.excs[k].amt))) \cup
                      F("Uncertainty", \A k \in neg : ScaledUnc(d.excs[k].unc, d.excs[k].amt, RNeg(ROne), o.excs[k].unc, o.excs[k].amt)) : i \in 1..Len(r.src)}
      [] OTHER -> {"UnknownFunction"}
Q01(r) ==
    CASE r.fn = "drop" -> IF Rejected(r) THEN {"Accepted"} ELSE F("Links", SameB(r.out, DropLinks(r.src), {}))
      [] r.fn = "swap" ->
            LET S == Conds(r.src) IN
            IF AllPosed(r.src, S) THEN (IF Rejected(r) THEN {"Accepted"} ELSE LET e == SwapAll(r.src, S)  same == SameB(r.out, e, {"unc"}) IN F("Roles", same) \cup
                    F("Uncertainty", same => \A i \in 1..Len(e) : \A k \in 1..Len(e[i].excs) : Mirrored(r.src[i].excs[k], e[i].excs[k].amt, r.out[i].excs[k])))
            ELSE F("Rejected", Rejected(r))
      [] OTHER -> {"UnknownFunction"}
Q02(r) ==
    CASE r.fn = "prune" ->
            IF \E i \in 1..Len(r.src) : NeedsPruning(r.src[i]) /\ Known(r.src[i].sup) = {} THEN F("Rejected", Rejected(r))
            ELSE IF Rejected(r) THEN {"Accepted"}
            ELSE IF Len(r.out) # Len(r.src) THEN {"Complete"}
            ELSE F("Best", \A i \in 1..Len(r.src) : SameDs(r.out[i], IF NeedsPruning(r.src[i]) THEN [r.src[i] EXCEPT !.sup = Pruned(@)] ELSE r.src[i]))
      [] r.fn = "alternative" ->
            (IF ByproductsCovered(r.src) THEN F("Accepted", ~Rejected(r)) ELSE F("Rejected", Rejected(r))) \cup F("Unchanged", SameDb(r.after, r.src))
      [] r.fn = "levels" ->
            IF Rejected(r) THEN {"Accepted"}
            ELSE F("Levels", SameDb(r.out, [i \in 1..Len(r.src) |-> IF r.src[i].type = TA /\ r.src[i].tech = "undefined" THEN [r.src[i] EXCEPT !.tech = "current"] ELSE r.src[i]]))
      [] OTHER -> {"UnknownFunction"}
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"}
            ELSE CASE Prop = "W01" -> W01(r) [] Prop = "W02" -> W02(r) [] Prop = "Q01" -> Q01(r) [] Prop = "Q02" -> Q02(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
