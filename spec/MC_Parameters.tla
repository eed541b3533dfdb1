--------------------------- MODULE MC_Parameters ---------------------------
(* Design check: translation by any order of rewriting keeps the meaning   *)
(* and ends in one final formula; settling in any order reaches the values *)
(* ElemValue and gets stuck only on cycles and undefined names; resolving  *)
(* references in any order keeps what every formula denotes.               *)
EXTENDS Parameters, Json, IOUtils, SequencesExt, TLC
Deep == IOEnv.TIER = "thorough"
Prop == IOEnv.PROP
N(k) == <<"n", RInt(k)>>
V(x) == <<"v", x>>

(* ---- F01 ---------------------------------------------------------------*)
Atoms == {V("x"), V("yield"), N(3)} \cup (IF Deep THEN {V("in_x")} ELSE {})
Pcts == {<<"pct", N(5)>>}
Bin(S, T) == {<<op, a, b>> : op \in {"+", "*", "/"}, a \in S, b \in T}
Pows(S) == {<<"pow", a, k>> : a \in S, k \in {2} \cup (IF Deep THEN {-1} ELSE {})}
Ifs(C, S, T) == {<<"if", c, a, b>> : c \in C, a \in S, b \in T}
Conds == {<<"lt", V("x"), N(1)>>, <<"gt", V("yield"), V("x")>>}
L1 == Atoms \cup Pcts \cup Bin({V("x"), V("yield")}, {V("yield"), N(3)}) \cup Pows({V("x"), V("yield"), N(3)}) \cup Ifs(Conds, {V("x"), V("yield")}, {N(3), V("yield")})
L2 == Bin(L1, Atoms) \cup Bin({V("yield")}, L1) \cup Pows(L1) \cup Ifs(Conds, L1, {V("x")}) \cup Ifs(Conds, {V("yield")}, L1)
       \cup Ifs({<<"lt", a, N(2)>> : a \in L1}, {V("x")}, {N(3)}) \cup {<<"neg", a>> : a \in L1} \cup {<<"abs", a>> : a \in L1}
       \cup (IF Deep THEN Bin(L1, L1) \cup Ifs(Conds, L1, L1) ELSE {})
Formulas == L1 \cup L2
Envs == {[x |-> RInt(a), yield |-> RInt(b), in_x |-> RInt(5)] : a \in {0, 2}, b \in {1, 3}}

(* ---- F02 ---------------------------------------------------------------*)
Forms == {V("a"), V("b"), V("c"), <<"+", V("a"), N(2)>>, <<"*", V("b"), V("c")>>, <<"/", N(4), V("a")>>, <<"/", V("a"), <<"-", V("b"), V("b")>>>>, N(5)}
           \cup (IF Deep THEN {<<"+", V("a"), V("b")>>, <<"/", V("c"), V("b")>>, V("nil"), <<"if", <<"lt", V("a"), V("c")>>, V("b"), N(7)>>} ELSE {})
Elem(k, v, f) == [key |-> k, var |-> v, hasf |-> f # <<>>, f |-> (IF f = <<>> THEN N(0) ELSE f), amt |-> RInt(IF v = "b" THEN 0 ELSE 2)]
NamedForms == Forms \cup {<<>>}
Graphs == {<<Elem("e1", "a", fa), Elem("e1/pv", "b", fb), Elem("param/p", "c", fc), Elem("e2", "", fd)>> :
             fa \in NamedForms, fb \in NamedForms, fc \in NamedForms, fd \in {<<"+", V("a"), V("c")>>} \cup (IF Deep THEN {<<"/", V("a"), V("b")>>} ELSE {V("nil")})}

(* ---- F03 ---------------------------------------------------------------*)
R3(k, i) == IF k = "ep" THEN <<"ref", i>> ELSE <<"refpv", i>>
RForms == {<<>>, R3("ep", "p"), <<"+", R3("ep", "e1"), R3("pv", "e1")>>, R3("pv", "e2"), <<"*", V("v1"), R3("ep", "e2")>>} \cup
          (IF Deep THEN {R3("ep", "gone"), <<"-", R3("ep", "e1"), R3("ep", "e1")>>, <<"if", <<"lt", R3("ep", "e1"), N(1)>>, R3("ep", "p"), R3("pv", "e1")>>} ELSE {R3("ep", "gone")})
RElem(i, k, v, f) == [id |-> i, kind |-> k, var |-> v, hasf |-> f # <<>>, f |-> (IF f = <<>> THEN N(0) ELSE f)]
RDbs == {<<RElem("e1", "ep", va, fa), RElem("e1", "pv", vb, fb), RElem("e2", "ep", "", fc), RElem("p", "ep", vd, <<>>)>> :
            va \in {"", "v1"}, vb \in {"", "v2"}, fa \in RForms, fb \in RForms, fc \in {<<>>, R3("ep", "e1"), R3("pv", "e1")}, vd \in {"", "v4"}}
        \cup {<<RElem("e1", "ep", va, <<>>), RElem("e1", "pv", vb, <<>>), RElem("e2", "ep", vc, <<>>), RElem("p", "ep", vd, <<>>)>> :
            va \in {"v1", "v2"}, vb \in {"", "v1", "v2"}, vc \in {"", "v1"}, vd \in {"", "v2", "v1"}}
Fresh(r) == r[1] \o "_" \o r[2]
Vals == <<RInt(3), RInt(5), RInt(7), RInt(11)>>

Space == IF Prop = "F01" THEN Formulas ELSE IF Prop = "F02" THEN Graphs ELSE RDbs
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, SetToSeq(Space))

VARIABLES src, cur
vars == <<src, cur>>
Init == /\ src \in Space
        /\ cur = IF Prop = "F02" THEN [i \in 1..Len(src) |-> NaR] ELSE src
Translate == Prop = "F01" /\ cur' \in Rewrites(cur) /\ UNCHANGED src
DoSettle == Prop = "F02" /\ \E i \in 1..Len(src) : CanSettle(src, cur, i) /\ cur' = [cur EXCEPT ![i] = Settle(src, cur, i)] /\ UNCHANGED src
DoResolve == Prop = "F03" /\ \E r \in AllRefs(cur) :
    /\ RefTarget(cur, r) # {}
    /\ LET t == CHOOSE i \in RefTarget(cur, r) : TRUE  v == IF cur[t].var = "" THEN Fresh(r) ELSE cur[t].var IN
       \E i \in 1..Len(cur) : cur[i].hasf /\ r \in Refs(cur[i].f)
           /\ cur' = [j \in 1..Len(cur) |-> LET e == IF j = t THEN [cur[j] EXCEPT !.var = v] ELSE cur[j]
                                            IN IF j = i THEN [e EXCEPT !.f = Subst(e.f, r, v)] ELSE e]
    /\ UNCHANGED src
Next == Translate \/ DoSettle \/ DoResolve

(* F01 *)
Meaning == Prop = "F01" => \A e \in Envs : RSame(Eval(Back(cur), e), Eval(src, e)) \/ ~IsNum(Eval(src, e))
Progress == Prop = "F01" => (Rewrites(cur) = {}) = Final(cur)
RECURSIVE Normal(_)
Normal(f) ==
    CASE f[1] \in {"n", "v"} -> f
      [] f[1] = "if" -> LET a == Normal(f[3])  b == Normal(f[4]) IN
            IF a = b THEN a ELSE <<"cond", a, <<f[2][1], Normal(f[2][2]), Normal(f[2][3])>>, b>>
      [] f[1] = "pow" -> <<"**", Normal(f[2]), f[3]>>
      [] f[1] = "pct" -> <<"e-2", Normal(f[2])>>
      [] f[1] \in {"neg", "abs"} -> <<f[1], Normal(f[2])>>
      [] OTHER -> <<f[1], Normal(f[2]), Normal(f[3])>>
Confluent == Prop = "F01" /\ Final(cur) => cur = Normal(src)
(* F02 *)
SettlesRight == Prop = "F02" => \A i \in 1..Len(src) : IsNum(cur[i]) => RSame(cur[i], ElemValue(src, i))
StuckRight == Prop = "F02" /\ (\A i \in 1..Len(src) : ~CanSettle(src, cur, i)) => ((\A i \in 1..Len(src) : IsNum(cur[i])) = Acceptable(src))
(* F03 *)
NamesUnique == Prop = "F03" /\ ~DuplicateNames(src) => ~DuplicateNames(cur)
DenotesSame == Prop = "F03" /\ Resolvable(src) /\ ~DuplicateNames(src) =>
    \A i \in 1..Len(src) : src[i].hasf => RSame(Denotes(src[i].f, src, Vals), Denotes(cur[i].f, cur, Vals)) \/ ~IsNum(Denotes(src[i].f, src, Vals))
Resolved == Prop = "F03" /\ Resolvable(src) /\ ~(\E r \in AllRefs(cur) : RefTarget(cur, r) # {}) => AllRefs(cur) = {}
=============================================================================
