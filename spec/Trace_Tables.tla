----------------------------- MODULE Trace_Tables ---------------------------
(* Conformance for R01.  Record: [fn, of, outcome, src, out, rows,       *)
(* widths, width]: width is the number of columns of the table.            *)
EXTENDS Tables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Due(r) == LET s == r.src  o == r.out IN
    CASE r.fn \in {"zero", "rps"} -> Unlinked(s, o)
      [] r.fn = "freed" -> Freed(s, o)
      [] r.fn \in {"conseq", "unlinked"} -> Removed(s, o)
      [] r.fn = "child" -> Relinked(s, o)
      [] r.fn = "shift" -> Shifted(s, o)
      [] r.fn = "conditional" -> Zeroed(s, o)
      [] r.fn = "flip" -> Flipped(s, o)
      [] r.fn = "rename" -> Renamed(s, o)
      [] r.fn = "recycle" -> Added(s, o)
      [] r.fn = "turned" -> Turned(s, o)
      [] r.fn = "signs" -> Signed(s, o)
      [] r.fn = "scaled" -> Scaled(s, o)
      [] r.fn = "purge" -> Dropped(s, o)
      [] r.fn = "levelled" -> Levelled(s, o)
      [] r.fn = "mixed" -> Mixed(s)
      [] r.fn = "volumes" -> Volumes(r.of, s, o)
      [] r.fn = "groups" -> Suppliers(o)
      [] r.fn = "actual" -> Dangling(s, o)
      [] r.fn = "recycled" -> Coded(s, o)
      [] r.fn = "split" -> Split(s, o)
      [] r.fn = "parts" -> Parts(s, o)
      [] r.fn = "cut" -> Cut(s, o)
      [] r.fn = "failed" -> Failed(s)
Told(r) ==
    CASE r.fn = "supply" -> SameRows(Supplied(r.src, r.out), Sel(r.rows, LAMBDA q : ~IsZero(q[Len(q)].n)))
      [] r.fn = "moved" -> MovedSame(Moved(r.src, r.out), r.rows)
      [] r.fn = "labels" -> Counted(r.out, r.rows)
      [] r.fn = "spelt" -> SpeltSame(Capital(r.src, r.out) \o Spelt(r.src, r.out), r.rows)
      [] r.fn = "resolved" -> Resolved(r.src, r.out, r.rows)
      [] OTHER -> SameRows(Due(r), r.rows)
R01(r) == IF r.outcome # "ok" THEN {"Accepted"} ELSE
    F("Rows", Told(r)) \cup F("Columns", \A i \in 1..Len(r.widths) : r.widths[i] = r.width)
Fails(r) == IF r.shape # "ok" THEN {"WellFormed"} ELSE R01(r)
VARIABLES l, bad
TraceInit == l = 0 /\ bad = <<>>
TraceNext ==
    \/ /\ l < Len(Trace)
       /\ LET f == Fails(Trace[l + 1]) IN bad' = IF f = {} THEN bad ELSE Append(bad, <<Trace[l + 1].id, f>>)
       /\ l' = l + 1
    \/ /\ l = Len(Trace) /\ JsonSerialize(IOEnv.OUT, [done |-> l, bad |-> bad]) /\ l' = l + 1 /\ UNCHANGED bad
=============================================================================
