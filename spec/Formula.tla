------------------------------ MODULE Formula ------------------------------
(* Meaning of formulas and of parameterized datasets.                      *)
(* A formula is an abstract syntax tree:                                   *)
(*   <<"n", q>>  <<"v", name>>  <<op, a, b>>  <<"neg", a>>                 *)
(*   <<"if", cond, a, b>>  with cond  <<rel, a, b>>                        *)
(* A parameterized element ("elem") is a record                            *)
(*   [key, var, hasf, f, amt] : var = "" if unnamed, f used iff hasf.      *)
EXTENDS Rat, FiniteSets

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN ROne ELSE IF k < 0 THEN RDiv(ROne, RPow(a, -k)) ELSE RMul(a, RPow(a, k - 1))

(* env is a function: variable name -> rational *)
RECURSIVE Eval(_, _)
RECURSIVE Cond(_, _)
Cond(c, env) ==
    LET a == Eval(c[2], env)  b == Eval(c[3], env) IN
    CASE c[1] = "lt" -> RLt(a, b)
      [] c[1] = "le" -> RLe(a, b)
      [] c[1] = "gt" -> RLt(b, a)
      [] c[1] = "ge" -> RLe(b, a)
      [] c[1] = "eq" -> REq(a, b)
      [] OTHER -> FALSE
Eval(f, env) ==
    CASE f[1] = "n"   -> f[2]
      [] f[1] = "v"   -> IF f[2] \in DOMAIN env THEN env[f[2]] ELSE NaR
      [] f[1] = "+"   -> RAdd(Eval(f[2], env), Eval(f[3], env))
      [] f[1] = "-"   -> RSub(Eval(f[2], env), Eval(f[3], env))
      [] f[1] = "*"   -> RMul(Eval(f[2], env), Eval(f[3], env))
      [] f[1] = "/"   -> RDiv(Eval(f[2], env), Eval(f[3], env))
      [] f[1] = "neg" -> RNeg(Eval(f[2], env))
      [] f[1] = "abs" -> RAbs(Eval(f[2], env))
      [] f[1] = "pct" -> RMul(Eval(f[2], env), <<1, 100>>)
      [] f[1] = "pow" -> LET b == Eval(f[2], env) IN IF IsNum(b) THEN RPow(b, f[3]) ELSE NaR
      [] f[1] = "if"  -> IF ~(IsNum(Eval(f[2][2], env)) /\ IsNum(Eval(f[2][3], env))) THEN NaR
                         ELSE IF Cond(f[2], env) THEN Eval(f[3], env) ELSE Eval(f[4], env)
      [] OTHER -> NaR

(* formulas that divide by zero count as zero *)
ZeroIfUndefined(q) == IF IsNum(q) THEN q ELSE RZero

RECURSIVE Vars(_)
Vars(f) ==
    CASE f[1] = "n"  -> {}
      [] f[1] = "v"  -> {f[2]}
      [] f[1] \in {"neg", "abs", "pct", "pow"} -> Vars(f[2])
      [] f[1] = "if" -> Vars(f[2][2]) \cup Vars(f[2][3]) \cup Vars(f[3]) \cup Vars(f[4])
      [] OTHER -> Vars(f[2]) \cup Vars(f[3])

ElemNamed(elems, v) == {i \in 1..Len(elems) : elems[i].var = v}

(* Final value of a named variable: its formula evaluated over the final   *)
(* values of the variables it uses (fuel bounds cyclic definitions).       *)
RECURSIVE VarValue(_, _, _)
VarValue(elems, v, fuel) ==
    LET S == ElemNamed(elems, v) IN
    IF fuel = 0 \/ Cardinality(S) # 1 THEN NaR
    ELSE LET e == elems[CHOOSE i \in S : TRUE] IN
         IF e.hasf
         THEN LET env == [w \in Vars(e.f) |-> VarValue(elems, w, fuel - 1)] IN ZeroIfUndefined(Eval(e.f, env))
         ELSE e.amt

(* Value every element must have after recalculation *)
ElemValue(elems, i) ==
    LET e == elems[i]
    IN IF e.hasf
       THEN ZeroIfUndefined(Eval(e.f, [w \in Vars(e.f) |-> VarValue(elems, w, Len(elems) + 1)]))
       ELSE e.amt

Defined(elems) ==
    \A i \in 1..Len(elems) : elems[i].hasf =>
        \A v \in Vars(elems[i].f) : Cardinality(ElemNamed(elems, v)) = 1

(* dependency relation between named variables, and its reachability *)
RECURSIVE DepReach(_, _, _)
DepReach(elems, frontier, n) ==
    IF n = 0 THEN frontier
    ELSE LET nxt == UNION {Vars(elems[i].f) : i \in {j \in 1..Len(elems) : elems[j].hasf /\ elems[j].var \in frontier}}
         IN DepReach(elems, frontier \cup nxt, n - 1)
Cyclic(elems) ==
    \E i \in 1..Len(elems) :
        /\ elems[i].var # "" /\ elems[i].hasf
        /\ elems[i].var \in DepReach(elems, Vars(elems[i].f), Len(elems))
=============================================================================
