-------------------------- MODULE Trace_Corrections -------------------------
(* Conformance for C01.  Record: [fn, outcome, src, out, rows, vals]       *)
EXTENDS Corrections, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
SameT(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Text(a[i]) = b[i]
Same(out, want) == SameDb(out, want) /\ \A i \in 1..Len(out) : SameT(want[i].texts, out[i].ftexts)
Single(d) == Len(RPsOf(d)) = 1 /\ RPsOf(d)[1].pv.has
(* markets with a volume are not claimed to go or to stay *)
StayedOrUnclaimed(r, d) == ~IsUnused(d) \/ (~IsZero(Volume(d)) /\ \E i \in 1..Len(r.out) : r.out[i].id = d.id)
C01(r) ==
    LET rejected == r.outcome # "ok"
        told(rows) == F("Reported", r.rows = rows)
        judged(out) == F("Exactly", Same(r.out, out))
    IN CASE r.fn = "unused" -> IF rejected THEN {"Accepted"} ELSE
            judged(Sel(r.src, LAMBDA d : StayedOrUnclaimed(r, d))) \cup told(Picks(r.src, LAMBDA d : ~StayedOrUnclaimed(r, d), LAMBDA d : <<d.name, d.refp>>))
      [] r.fn = "confidential" -> IF \E i \in 1..Len(r.src) : IsConfidential(r.src[i]) /\ ~Single(r.src[i]) THEN {}
            ELSE IF rejected THEN {"Accepted"} ELSE judged(Each(r.src, OneUnit)) \cup told(Picks(r.src, IsConfidential, LAMBDA d : <<d.name, TheRP(d).name, "1">>))
      [] r.fn = "pipeline" -> IF rejected THEN {"Accepted"} ELSE judged(Each(r.src, Replace))
      [] r.fn = "gas" -> IF rejected THEN {"Accepted"} ELSE judged(Each(r.src, CutGas)) \cup
            told(Picks(r.src, LAMBDA d : Len(CutGas(d).excs) # Len(d.excs), LAMBDA d : <<d.name, d.loc, ToString(Len(d.excs)), ToString(Len(CutGas(d).excs))>>))
      [] r.fn = "rows" -> IF rejected THEN {"Accepted"} ELSE judged(DropRows(r.src)) \cup told(Picks(r.src, IsEmptyRow, LAMBDA d : <<d.name, TheRP(d).name>>))
      [] r.fn = "texts" -> IF rejected THEN {"Accepted"} ELSE judged(Each(r.src, Mend)) \cup
            F("Reported", Len(r.rows) = FoldLeft(LAMBDA acc, d : acc + Mended(d), 0, r.src))
      [] r.fn = "mandatory" -> IF Valueless(r.src) THEN F("Rejected", rejected) \cup F("Exactly", Same(r.after, r.src))
            ELSE IF rejected THEN {"Accepted"} ELSE judged(r.src) \cup F("Exactly", Same(r.after, r.src)) \cup
            F("Reported", LET w == Lacking(r.src) IN Len(w) = Len(r.rows) /\ \A i \in 1..Len(w) :
                r.rows[i][1] = w[i][1] /\ r.rows[i][2] = w[i][2] /\ Len(r.rows[i]) = 2 + Cardinality(w[i][3]) /\ {r.rows[i][k] : k \in 3..Len(r.rows[i])} = w[i][3])
      [] r.fn = "bare" -> IF rejected THEN {"Accepted"} ELSE IF Len(r.out) # Len(r.src) THEN {"Exactly"} ELSE
            F("Exactly", \A i \in 1..Len(r.src) : LET o == r.out[i]  b == Bare(r.src[i]) IN
                SameDsBut(o, b, {"excs"}) /\ SameExcs(o.excs, b.excs, {"props"}) /\ \A k \in 1..Len(o.excs) : o.excs[k].plist = <<>>)
      [] r.fn = "haspv" -> (IF \E i \in 1..Len(r.src) : ~IsNum(Volume(r.src[i])) THEN F("Rejected", rejected)
            ELSE IF \A i \in 1..Len(r.src) : ~IsZero(Volume(r.src[i])) THEN F("Accepted", ~rejected) ELSE {}) \cup F("Exactly", Same(r.after, r.src))
      [] r.fn = "volumes" -> IF rejected THEN {"Accepted"} ELSE
            F("Read", \A i \in 1..Len(r.src) : LET d == r.src[i]  v == r.vals[i]  or(x) == IF IsNum(x) THEN x ELSE <<-77, 1>> IN
                /\ RSame(v.pv, or(Volume(d))) /\ RSame(v.orig, or(Original(d))) /\ IsNum(v.pvn) = IsNum(Volume(d)) /\ IsNum(v.orign) = IsNum(Original(d))
                /\ SameBag(v.names, [k \in 1..Len(RPsOf(d)) |-> RPsOf(d)[k].name])) \cup F("Exactly", Same(r.after, r.src))
      [] OTHER -> {"UnknownFunction"}
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE C01(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
