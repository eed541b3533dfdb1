---------------------------- MODULE Parameters -----------------------------
(* Parameterized activities: the source formula dialect and its            *)
(* translation (F01), recalculation (F02), implicit references and the     *)
(* uniqueness of variable names (F03).                                     *)
(* Formulas are the trees of module Formula, plus the reference leaves     *)
(*   <<"ref", id>>  (exchange or parameter)   <<"refpv", id>> (its volume) *)
EXTENDS Formula, Distributions

(* ---- F01: names and dialect --------------------------------------------*)
Reserved == {"and", "as", "assert", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally",
             "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise",
             "return", "try", "while", "with", "yield"}
(* a name is given with its lower and upper case spelling *)
Target(n) == IF n.low \in Reserved THEN n.up ELSE n.low

(* the formula uses a construct of the source dialect *)
RECURSIVE Dialect(_)
Dialect(f) ==
    CASE f[1] \in {"n", "v"} -> FALSE
      [] f[1] \in {"pow", "pct", "if"} -> TRUE
      [] f[1] \in {"neg", "abs"} -> Dialect(f[2])
      [] OTHER -> Dialect(f[2]) \/ Dialect(f[3])

(* translation as rewriting: the source nodes "if", "pow", "pct" become    *)
(* target nodes "cond" (value first), "**" and "e-2", innermost first      *)
RECURSIVE Final(_)
Final(f) ==
    CASE f[1] \in {"n", "v"} -> TRUE
      [] f[1] \in {"if", "pow", "pct"} -> FALSE
      [] f[1] = "cond" -> Final(f[3][2]) /\ Final(f[3][3]) /\ Final(f[2]) /\ Final(f[4])
      [] f[1] \in {"neg", "abs", "e-2", "**"} -> Final(f[2])
      [] OTHER -> Final(f[2]) /\ Final(f[3])
RECURSIVE Rewrites(_)
Rewrites(f) ==      \* all results of one rewriting step
    LET at(i) == {[f EXCEPT ![i] = g] : g \in Rewrites(f[i])}
        inCond(i) == {[f EXCEPT ![i] = <<@[1], g, @[3]>>] : g \in Rewrites(f[i][2])} \cup {[f EXCEPT ![i] = <<@[1], @[2], g>>] : g \in Rewrites(f[i][3])}
    IN CASE f[1] \in {"n", "v"} -> {}
         [] f[1] = "if" ->
              inCond(2) \cup at(3) \cup at(4) \cup
              (IF Final(f[2][2]) /\ Final(f[2][3]) /\ Final(f[3]) /\ Final(f[4])
               THEN {IF f[3] = f[4] THEN f[3] ELSE <<"cond", f[3], f[2], f[4]>>} ELSE {})
         [] f[1] = "cond" -> at(2) \cup inCond(3) \cup at(4)
         [] f[1] = "pow" -> at(2) \cup (IF Final(f[2]) THEN {<<"**", f[2], f[3]>>} ELSE {})
         [] f[1] = "pct" -> at(2) \cup (IF Final(f[2]) THEN {<<"e-2", f[2]>>} ELSE {})
         [] f[1] \in {"neg", "abs", "**", "e-2"} -> at(2)
         [] OTHER -> at(2) \cup at(3)
(* meaning of a partly translated formula *)
RECURSIVE Back(_)
Back(f) ==
    CASE f[1] \in {"n", "v"} -> f
      [] f[1] = "cond" -> <<"if", <<f[3][1], Back(f[3][2]), Back(f[3][3])>>, Back(f[2]), Back(f[4])>>
      [] f[1] = "if" -> <<"if", <<f[2][1], Back(f[2][2]), Back(f[2][3])>>, Back(f[3]), Back(f[4])>>
      [] f[1] \in {"**", "pow"} -> <<"pow", Back(f[2]), f[3]>>
      [] f[1] \in {"e-2", "pct"} -> <<"pct", Back(f[2])>>
      [] f[1] \in {"neg", "abs"} -> <<f[1], Back(f[2])>>
      [] OTHER -> <<f[1], Back(f[2]), Back(f[3])>>
RNear(a, b) == IsNum(a) /\ IsNum(b) /\ RLe(RAbs(RSub(a, b)), RMul(<<1, 1000000000>>, RAdd(ROne, RAbs(b))))

(* ---- F02: recalculation as settling ------------------------------------*)
(* val: element index -> settled value (NaR: not yet).  An element settles *)
(* once every variable of its formula has.                                 *)
SettledVar(elems, val, v) == \E j \in ElemNamed(elems, v) : IsNum(val[j])
CanSettle(elems, val, i) == ~IsNum(val[i]) /\ (elems[i].hasf => \A v \in Vars(elems[i].f) : SettledVar(elems, val, v))
Settle(elems, val, i) ==
    IF ~elems[i].hasf THEN elems[i].amt
    ELSE ZeroIfUndefined(Eval(elems[i].f, [v \in Vars(elems[i].f) |-> val[CHOOSE j \in ElemNamed(elems, v) : TRUE]]))
Acceptable(elems) == Defined(elems) /\ ~Cyclic(elems)

(* ---- F03: references ---------------------------------------------------*)
(* elems: [id, kind, var, hasf, f]; kind "ep": exchange or parameter, "pv" *)
RECURSIVE Refs(_)
Refs(f) ==      \* set of <<kind, id>>
    CASE f[1] \in {"n", "v"} -> {}
      [] f[1] = "ref" -> {<<"ep", f[2]>>}
      [] f[1] = "refpv" -> {<<"pv", f[2]>>}
      [] f[1] \in {"neg", "abs", "pct", "pow"} -> Refs(f[2])
      [] f[1] = "if" -> Refs(f[2][2]) \cup Refs(f[2][3]) \cup Refs(f[3]) \cup Refs(f[4])
      [] OTHER -> Refs(f[2]) \cup Refs(f[3])
AllRefs(elems) == UNION {IF elems[i].hasf THEN Refs(elems[i].f) ELSE {} : i \in 1..Len(elems)}
RefTarget(elems, r) == {i \in 1..Len(elems) : elems[i].kind = r[1] /\ elems[i].id = r[2]}
Resolvable(elems) == \A r \in AllRefs(elems) : RefTarget(elems, r) # {}
RefVar(elems, r) == elems[CHOOSE i \in RefTarget(elems, r) : TRUE].var
(* the formula with one reference replaced by the variable v *)
RECURSIVE Subst(_, _, _)
Subst(f, r, v) ==
    CASE f[1] = "ref" -> IF r = <<"ep", f[2]>> THEN <<"v", v>> ELSE f
      [] f[1] = "refpv" -> IF r = <<"pv", f[2]>> THEN <<"v", v>> ELSE f
      [] f[1] \in {"n", "v"} -> f
      [] f[1] \in {"neg", "abs", "pct"} -> <<f[1], Subst(f[2], r, v)>>
      [] f[1] = "pow" -> <<"pow", Subst(f[2], r, v), f[3]>>
      [] f[1] = "if" -> <<"if", <<f[2][1], Subst(f[2][2], r, v), Subst(f[2][3], r, v)>>, Subst(f[3], r, v), Subst(f[4], r, v)>>
      [] OTHER -> <<f[1], Subst(f[2], r, v), Subst(f[3], r, v)>>
(* value denoted by a formula with references, when element i has value vals[i] *)
Env(elems, vals) == [n \in {elems[i].var : i \in 1..Len(elems)} \ {""} |-> vals[CHOOSE i \in ElemNamed(elems, n) : TRUE]]
RECURSIVE Ground(_, _, _)
Ground(f, elems, vals) ==
    LET G(x) == Ground(x, elems, vals)
        val(r) == LET T == RefTarget(elems, r) IN IF T = {} THEN NaR ELSE vals[CHOOSE i \in T : TRUE]
    IN CASE f[1] = "ref" -> <<"n", val(<<"ep", f[2]>>)>>
         [] f[1] = "refpv" -> <<"n", val(<<"pv", f[2]>>)>>
         [] f[1] \in {"n", "v"} -> f
         [] f[1] \in {"neg", "abs", "pct"} -> <<f[1], G(f[2])>>
         [] f[1] = "pow" -> <<"pow", G(f[2]), f[3]>>
         [] f[1] = "if" -> <<"if", <<f[2][1], G(f[2][2]), G(f[2][3])>>, G(f[3]), G(f[4])>>
         [] OTHER -> <<f[1], G(f[2]), G(f[3])>>
Denotes(f, elems, vals) == Eval(Ground(f, elems, vals), Env(elems, vals))
DuplicateNames(elems) == \E i, j \in 1..Len(elems) : i < j /\ elems[i].var # "" /\ elems[i].var = elems[j].var
=============================================================================
