-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for the specification.                        *)
(*                                                                         *)
(* A rational is a pair <<n, d>>; d = 0 denotes "not a number" (a missing, *)
(* non-finite or non-numeric value), which absorbs every operation and is  *)
(* equal to nothing.  The TLA+ bodies below are the definitions; TLC       *)
(* replaces them by java/Rat.java, which computes the same functions with  *)
(* unbounded integers, because TLC's own integers have 32 bits and the     *)
(* doubles of the implementation are passed exactly (as n/d, with n and d  *)
(* written as strings when they do not fit).  Results are in lowest terms. *)
EXTENDS Integers, Sequences

NaR == <<0, 0>>
IsNum(a) == a[2] # 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IAbs(i) == IF i < 0 THEN -i ELSE i
RNorm(n, d) == IF d = 0 THEN NaR
               ELSE LET g == Gcd(IAbs(n), IAbs(d))
                        s == IF d < 0 THEN -1 ELSE 1
                    IN <<(s * n) \div g, (s * d) \div g>>

RInt(i)    == <<i, 1>>
RZero      == <<0, 1>>
ROne       == <<1, 1>>
RAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaR ELSE RNorm(a[1]*b[2] + b[1]*a[2], a[2]*b[2])
RSub(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaR ELSE RNorm(a[1]*b[2] - b[1]*a[2], a[2]*b[2])
RMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN NaR ELSE RNorm(a[1]*b[1], a[2]*b[2])
RDiv(a, b) == IF a[2] = 0 \/ b[2] = 0 \/ b[1] = 0 THEN NaR ELSE RNorm(a[1]*b[2], a[2]*b[1])
RSign(a)   == IF a[2] = 0 THEN 0 ELSE LET n == a[1] * a[2] IN IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
(* -1, 0, 1; 2 when incomparable *)
RCmp(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN 2
              ELSE LET x == RSub(a, b)[1] IN IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* |a - b| <= 10^-9 * (|a| + |b| + |scale|) + 10^-30 : equality up to      *)
(* floating point rounding of a computation whose terms have size <= scale *)
RCloseS(a, b, scale) ==
    IF a[2] = 0 \/ b[2] = 0 \/ scale[2] = 0 THEN FALSE
    ELSE LET RA(x) == <<IAbs(x[1]), IAbs(x[2])>>
             tol == RAdd(RMul(<<1, 1000000000>>, RAdd(RAdd(RA(a), RA(b)), RA(scale))), RZero)
         IN RSub(RA(RSub(a, b)), tol)[1] <= 0
(* y = ln(x) up to 10^-9, by the bound x-1 >= ln x >= 1-1/x refined        *)
(* (definition by a 40 term artanh series; TLC uses the override)          *)
RECURSIVE LnSeries(_, _, _)
LnSeries(z, zz, k) == IF k > 9 THEN RZero
                      ELSE RAdd(RDiv(z, RInt(k)), LnSeries(RMul(z, zz), zz, k + 2))
RLn(x) == LET z == RDiv(RSub(x, ROne), RAdd(x, ROne)) IN RMul(RInt(2), LnSeries(z, RMul(z, z), 1))
(* floating point division remainder style helpers *)
RFloor(a) == a[1] \div a[2]

RNeg(a)    == RSub(RZero, a)
RAbs(a)    == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RLt(a, b)  == RCmp(a, b) = -1
RLe(a, b)  == RCmp(a, b) \in {-1, 0}
REq(a, b)  == RCmp(a, b) = 0
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RClose(a, b) == RCloseS(a, b, RZero)
(* equal as observations: both numbers and close, or both missing *)
RSame(a, b) == IF IsNum(a) /\ IsNum(b) THEN RClose(a, b) ELSE IsNum(a) = IsNum(b)

RECURSIVE RSumFrom(_, _)
RSumFrom(s, i) == IF i > Len(s) THEN RZero ELSE RAdd(s[i], RSumFrom(s, i + 1))
RSum(s) == RSumFrom(s, 1)
(* sum of f(x) over the elements of the sequence s *)
RSumOver(s, f(_)) == RSum([i \in 1..Len(s) |-> f(s[i])])
=============================================================================
