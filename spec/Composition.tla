---------------------------- MODULE Composition -----------------------------
(* S07: nested transformation lists, list operations, per-dataset functions *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Flat(_), FlatAll(_, _)
Flat(t) == IF t.t = "f" THEN <<t.x>> ELSE FlatAll(t.c, 1)
FlatAll(c, i) == IF i > Len(c) THEN <<>> ELSE Flat(c[i]) \o FlatAll(c, i + 1)

(* Python's list operations; positions count from 0, negative from the end. *)
Clamp(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE (IF i > n THEN n ELSE i)
Valid(i, n) == -n <= i /\ i < n
Pos(i, n) == (IF i < 0 THEN i + n ELSE i) + 1
Cut(L, i, j) == LET a == Clamp(i, Len(L))  b == Clamp(j, Len(L)) IN IF b <= a THEN <<>> ELSE SubSeq(L, a + 1, b)
Splice(L, i, j, M) == LET a == Clamp(i, Len(L))  b0 == Clamp(j, Len(L))  b == IF b0 < a THEN a ELSE b0 IN SubSeq(L, 1, a) \o M \o SubSeq(L, b + 1, Len(L))
Rev(L) == [k \in 1..Len(L) |-> L[Len(L) + 1 - k]]
First(L, x) == CHOOSE k \in 1..Len(L) : L[k] = x /\ \A m \in 1..(k - 1) : L[m] # x
In(L, x) == \E k \in 1..Len(L) : L[k] = x
Count(L, x) == Cardinality({k \in 1..Len(L) : L[k] = x})
R(list, out, val) == [list |-> list, out |-> out, val |-> val]

(* An operation o = [op, i, j, x, xs] on list L: new list, outcome, value.  *)
Do(L, o) ==
    LET n == Len(L) IN
    CASE o.op = "insert" -> R(Splice(L, o.i, o.i, <<o.x>>), "ok", <<>>)
      [] o.op = "append" -> R(Append(L, o.x), "ok", <<>>)
      [] o.op \in {"extend", "iadd"} -> R(L \o o.xs, "ok", <<>>)
      [] o.op = "set" -> IF Valid(o.i, n) THEN R([L EXCEPT ![Pos(o.i, n)] = o.x], "ok", <<>>) ELSE R(L, "IndexError", <<>>)
      [] o.op = "get" -> IF Valid(o.i, n) THEN R(L, "ok", <<L[Pos(o.i, n)]>>) ELSE R(L, "IndexError", <<>>)
      [] o.op = "del" -> IF Valid(o.i, n) THEN R(Splice(L, o.i, Pos(o.i, n), <<>>), "ok", <<>>) ELSE R(L, "IndexError", <<>>)
      [] o.op = "pop" -> IF Valid(o.i, n) THEN R(Splice(L, o.i, Pos(o.i, n), <<>>), "ok", <<L[Pos(o.i, n)]>>) ELSE R(L, "IndexError", <<>>)
      [] o.op = "remove" -> IF In(L, o.x) THEN R(Splice(L, First(L, o.x) - 1, First(L, o.x), <<>>), "ok", <<>>) ELSE R(L, "ValueError", <<>>)
      [] o.op = "index" -> IF In(L, o.x) THEN R(L, "ok", <<First(L, o.x) - 1>>) ELSE R(L, "ValueError", <<>>)
      [] o.op = "count" -> R(L, "ok", <<Count(L, o.x)>>)
      [] o.op = "in" -> R(L, "ok", <<IF In(L, o.x) THEN 1 ELSE 0>>)
      [] o.op = "len" -> R(L, "ok", <<n>>)
      [] o.op = "reverse" -> R(Rev(L), "ok", <<>>)
      [] o.op = "clear" -> R(<<>>, "ok", <<>>)
      [] o.op = "iter" -> R(L, "ok", L)
      [] o.op = "reversed" -> R(L, "ok", Rev(L))
      [] o.op = "cut" -> R(L, "ok", Cut(L, o.i, o.j))
      [] o.op = "setcut" -> R(Splice(L, o.i, o.j, o.xs), "ok", <<>>)
      [] o.op = "delcut" -> R(Splice(L, o.i, o.j, <<>>), "ok", <<>>)
      [] o.op = "call" -> R(L, "ok", L)        \* each function appends itself to the data
      [] o.op = "unwrap" -> R(L, "ok", <<>>)

(* Per-dataset functions: kids[d] is what the function returns for d.       *)
RECURSIVE Replace(_, _, _, _)
Replace(data, selected, kids, i) ==
    IF i > Len(data) THEN <<>>
    ELSE (IF data[i] \in selected THEN kids[data[i]] ELSE <<data[i]>>) \o Replace(data, selected, kids, i + 1)
=============================================================================
