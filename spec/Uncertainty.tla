---------------------------- MODULE Uncertainty ----------------------------
(* Uncertainty distributions: a record                                     *)
(*   [type, mean, mu, neg, var, varp, min, mode, max]                      *)
(* type in Types; missing numbers are NaR; neg is "T", "F" or "-".         *)
EXTENDS Rat, Sequences, FiniteSets
Types == {"none", "undefined", "lognormal", "normal", "triangular", "uniform"}
NoUnc == [type |-> "none", mean |-> NaR, mu |-> NaR, neg |-> "-", var |-> NaR, varp |-> NaR,
          min |-> NaR, mode |-> NaR, max |-> NaR]

SameUnc(a, b) == /\ a.type = b.type /\ a.neg = b.neg
                 /\ RSame(a.mean, b.mean) /\ RSame(a.mu, b.mu) /\ RSame(a.var, b.var) /\ RSame(a.varp, b.varp)
                 /\ RSame(a.min, b.min) /\ RSame(a.mode, b.mode) /\ RSame(a.max, b.max)

NegFlag(amt) == IF RSign(amt) < 0 THEN "T" ELSE "F"
(* same value where the original had one *)
Kept(a, b) == IsNum(a) => RSame(a, b)
Times(a, k, b) == IsNum(a) => RCloseS(b, RMul(a, k), RZero)
Lo(u, k) == IF RSign(k) < 0 THEN RMul(u.max, k) ELSE RMul(u.min, k)
Hi(u, k) == IF RSign(k) < 0 THEN RMul(u.min, k) ELSE RMul(u.max, k)
MuOf(q, mu) == RCloseS(mu, RLn(RAbs(q)), <<1, 1000>>)

Degenerate(u) == (u.type = "none")
     \/ (u.type \in {"undefined", "triangular", "uniform"} /\ RSign(u.min) = 0 /\ RSign(u.max) = 0)

(* consistent lower/upper bounds around the amount: a distribution the     *)
(* implementation may keep; others it may drop as meaningless              *)
InBounds(u, amt) == LET lo == RMin(u.min, u.max)  hi == RMax(u.min, u.max) IN RLe(lo, amt) /\ RLe(amt, hi)
Midway(u, amt) == RCloseS(RMul(RInt(2), amt), RAdd(u.min, u.max), RZero)

(* (u2, a2) is a correct result of scaling (u, a) by k, for an object whose *)
(* distribution is consistent with its amount                              *)
ScaledUnc(u, a, k, u2, a2) ==
    IF RSign(k) = 0 THEN RSign(a2) = 0 /\ Degenerate(u2)
    ELSE CASE u.type = "none" -> u2.type = "none"
           [] u.type = "lognormal" ->
                 \/ (RSign(a) = 0 /\ u2.type = "none")
                 \/ /\ RSign(a) # 0 /\ u2.type = "lognormal"
                    /\ RClose(u2.mean, RAbs(a2)) /\ MuOf(a2, u2.mu)
                    /\ (u.neg # "-" => u2.neg = NegFlag(a2))
                    /\ Kept(u.var, u2.var) /\ Kept(u.varp, u2.varp)
           [] u.type = "normal" ->
                 /\ u2.type = "normal" /\ (IsNum(u.mean) => RClose(u2.mean, a2))
                 /\ Times(u.var, RMul(k, k), u2.var) /\ Times(u.varp, RMul(k, k), u2.varp)
           [] u.type = "undefined" ->
                 /\ u2.type = "undefined"
                 /\ RClose(u2.min, Lo(u, k)) /\ RClose(u2.max, Hi(u, k))
           [] u.type = "triangular" ->
                 /\ u2.type = "triangular"
                 /\ RClose(u2.min, Lo(u, k)) /\ RClose(u2.max, Hi(u, k)) /\ RClose(u2.mode, a2)
           [] u.type = "uniform" ->
                 /\ u2.type = "uniform"
                 /\ RClose(u2.min, Lo(u, k)) /\ RClose(u2.max, Hi(u, k))
           [] OTHER -> FALSE
=============================================================================
