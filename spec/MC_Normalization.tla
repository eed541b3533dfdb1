-------------------------- MODULE MC_Normalization --------------------------
(* Normalization among other scalings, in any order and any number of      *)
(* times: the normal form depends only on the ratios of the source.        *)
EXTENDS Allocation, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
E(id, type, amt) == [id |-> id, name |-> id, type |-> type, cls |-> IF type = RP THEN ALLOC ELSE "none", amt |-> amt, price |-> NaR, tv |-> NaR, cond |-> FALSE]
Amts == {<<-2, 1>>, <<-1, 3>>, RZero, <<1, 4>>, <<1, 1>>, <<5, 1>>}
Types == {TI, "to environment", BP}
Space == {[id |-> "d", name |-> "act", type |-> "transforming activity", elems |-> <<>>,
           excs |-> [i \in 1..n |-> E("p" \o ToString(i), RP, r)] \o <<E("x1", t, a), E("x2", TI, b)>>] :
          n \in 0..2, r \in Amts, t \in Types, a \in Amts, b \in Amts}
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES ds, src, steps, normal
vars == <<ds, src, steps, normal>>
Init == ds \in Space /\ src = ds /\ steps = 0 /\ normal = FALSE
Factors == {<<1, 2>>, <<3, 1>>}
Rescale == steps < (IF Deep THEN 4 ELSE 2) /\ \E k \in Factors : ds' = Scaled(ds, k) /\ steps' = steps + 1 /\ normal' = FALSE /\ UNCHANGED src
Normalize == Normalizable(ds) /\ ds' = Normalized(ds) /\ normal' = TRUE /\ UNCHANGED <<src, steps>>
Next == Rescale \/ Normalize
Vals(d) == [i \in 1..Len(d.excs) |-> d.excs[i].amt]
(* one normal form, whatever happened before *)
Confluent == normal => Vals(ds) = Vals(Normalized(src))
Unit == normal => RAbs(RPs(ds)[1].amt) = ROne
SignKept == Normalizable(src) => RSign(RPs(ds)[1].amt) = RSign(RPs(src)[1].amt)
Ratios == \A i, j \in 1..Len(ds.excs) : RMul(ds.excs[i].amt, src.excs[j].amt) = RMul(ds.excs[j].amt, src.excs[i].amt)
Refused == ~Normalizable(src) => ~normal
=============================================================================
