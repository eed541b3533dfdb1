--------------------------- MODULE Trace_HardLinks ---------------------------
(* Conformance of hard link and production volume steps.                   *)
(* Record: [id, kind, shape, fn, outcome, src, out, after]                 *)
EXTENDS HardLinks, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Rejected(r) == r.outcome # "ok"

(* equal volumes up to rounding of a computation of the given size *)
PVAs(a, b, sz) ==
    /\ a.has = b.has /\ a.var = b.var /\ a.f = b.f /\ a.attrs = b.attrs
    /\ \A k \in {"amt", "sub", "orig", "gl", "tot"} : (IsNum(a[k]) = IsNum(b[k])) /\ (IsNum(a[k]) => RCloseS(a[k], b[k], sz))
SizeOf(db) == RSumOver(db, LAMBDA d : RSumOver(d.excs, LAMBDA e : IF e.link # "" /\ HasScale(d) THEN RAbs(RMul(e.amt, Scale(d))) ELSE RZero))
SameButPV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameDsBut(a[i], b[i], {"excs"}) /\ SameExcs(a[i].excs, b[i].excs, {"pv"})
SamePVs(a, b, sz) == \A i \in 1..Len(a) : \A k \in 1..Len(a[i].excs) : PVAs(a[i].excs[k].pv, b[i].excs[k].pv, sz)

H01(r) ==
    LET db == Fix35(r.src) IN
    IF ~ValidLinks(db) THEN F("Rejected", Rejected(r)) \cup F("VolumesUntouched", SameButPV(r.after, db) /\ SamePVs(r.after, db, RZero))
    ELSE IF ~AllScaled(db, HasScale) THEN F("Rejected", Rejected(r))
    ELSE IF ~AllScaled(db, ScaleDefined) THEN F("Accepted", ~Rejected(r))
    ELSE IF Rejected(r) THEN {"Accepted"}
    ELSE LET e == Manage(r.src) IN
         IF ~SameButPV(r.out, e) THEN {"Frame"} ELSE F("Volumes", SamePVs(r.out, e, RMul(SizeOf(db), <<1, 1000>>)))

H02(r) ==
    CASE r.fn = "check" ->
            (IF ValidLinks(r.src) THEN F("Accepted", ~Rejected(r)) ELSE F("Rejected", Rejected(r))) \cup
            F("Unchanged", SameDb(r.after, r.src))
      [] r.fn = "parent" -> F("Accepted", ~Rejected(r)) \cup (IF Rejected(r) THEN {} ELSE F("Redirected", SameDb(r.out, ParentChild(r.src))))
      [] r.fn = "zero" -> F("Accepted", ~Rejected(r)) \cup (IF Rejected(r) THEN {} ELSE F("DropZero", SameDb(r.out, DropZero(r.src))))
      [] r.fn = "rp" -> F("Accepted", ~Rejected(r)) \cup (IF Rejected(r) THEN {} ELSE F("DropRP", SameDb(r.out, DropRP(r.src))))
      [] r.fn = "cleanup" -> F("Accepted", ~Rejected(r)) \cup (IF Rejected(r) THEN {} ELSE F("Cleanup", SameDb(r.out, DropZero(DropRP(r.src)))))
      [] OTHER -> {"UnknownFunction"}

(* moved volume parameters: old parameters, then one per volume variable   *)
ParamsMoved(d, o) ==
    /\ Len(o.params) = Len(d.params) + Len(PVVars(d))
    /\ \A i \in 1..Len(d.params) : \E j \in 1..Len(o.params) :
          o.params[j].id = d.params[i].id /\ o.params[j].var = d.params[i].var /\ o.params[j].f = d.params[i].f /\ RSame(o.params[j].amt, d.params[i].amt)
    /\ \A i \in 1..Len(PVVars(d)) : LET p == PVVars(d)[i].pv IN
          \E j \in 1..Len(o.params) : o.params[j].var = p.var /\ o.params[j].f = p.f /\ RSame(o.params[j].amt, p.amt)
    /\ Cardinality({o.params[j].id : j \in 1..Len(o.params)}) = Len(o.params)
ExcAs(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(o) : SameExcBut(o[k], e[k], {"pv"}) /\ PVAs(o[k].pv, e[k].pv, RZero)
Frame(r) == Len(r.out) = Len(r.src) /\ \A i \in 1..Len(r.src) : SameDsBut(r.out[i], r.src[i], {"excs", "params"})
H03(r) ==
    CASE r.fn = "ensure" ->
            (IF VolumesPresent(r.src) THEN F("Accepted", ~Rejected(r)) ELSE F("Rejected", Rejected(r))) \cup F("Unchanged", SameDb(r.after, r.src))
      [] r.fn = "byproduct" ->
            IF \E i \in 1..Len(r.src) : HasAllocBP(r.src[i]) /\ ~HasScale(r.src[i]) THEN F("Rejected", Rejected(r))
            ELSE IF Rejected(r) THEN {"Accepted"}
            ELSE IF ~Frame(r) THEN {"Frame"}
            ELSE UNION {F("ByproductVolume", IF ~HasAllocBP(r.src[i]) THEN SameDs(r.out[i], r.src[i])
                          ELSE ExcAs(r.out[i].excs, ByproductPV(r.src[i]).excs) /\ SameParams(r.out[i].params, r.src[i].params)) : i \in 1..Len(r.src)}
      [] r.fn = "deparam" ->
            IF Rejected(r) THEN {"Accepted"}
            ELSE IF ~Frame(r) THEN {"Frame"}
            ELSE UNION {F("VolumesFixed", ExcAs(r.out[i].excs, Deparam(r.src[i]).excs)) \cup
                        F("ParametersMoved", ParamsMoved(r.src[i], r.out[i])) : i \in 1..Len(r.src)}
      [] r.fn = "pvcleanup" ->
            IF ~VolumesPresent(r.src) THEN F("Rejected", Rejected(r))
            ELSE IF \E i \in 1..Len(r.src) : HasAllocBP(r.src[i]) /\ ~HasScale(r.src[i]) THEN F("Rejected", Rejected(r))
            ELSE IF Rejected(r) THEN {"Accepted"}
            ELSE IF ~Frame(r) THEN {"Frame"}
            ELSE UNION {LET m == IF HasAllocBP(r.src[i]) THEN ByproductPV(r.src[i]) ELSE r.src[i] IN
                        F("ByproductVolume", ExcAs(r.out[i].excs, Deparam(m).excs)) \cup
                        F("ParametersMoved", ParamsMoved(m, r.out[i])) : i \in 1..Len(r.src)}
      [] OTHER -> {"UnknownFunction"}

Fails(r) == IF r.shape # "ok" THEN {"WellFormed"}
            ELSE CASE Prop = "H01" -> H01(r) [] Prop = "H02" -> H02(r) [] Prop = "H03" -> H03(r)

VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
