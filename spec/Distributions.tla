--------------------------- MODULE Distributions ---------------------------
(* Operations on uncertainty distributions: scaling, repair, and the       *)
(* pedigree matrix.  An object is [a |-> amount, u |-> distribution].      *)
EXTENDS Uncertainty, FiniteSetsExt
(* the log-mean is derived: ln of the mean, checked with MuOf; Scale and   *)
(* Repair leave the field alone (its value is not rational)                *)
WithMu(o) == IF o.u.type = "lognormal" THEN [o EXCEPT !.u.mu = RLn(RAbs(o.a))] ELSE o
MidOf(u) == RDiv(RAdd(u.min, u.max), RInt(2))
Scale(o, k) ==
    LET a2 == RMul(o.a, k)  u == o.u
        b == [u EXCEPT !.min = Lo(u, k), !.max = Hi(u, k)]
        sq(v) == IF IsNum(v) THEN RMul(v, RMul(k, k)) ELSE v
    IN IF REq(k, ROne) THEN o
       ELSE [a |-> a2, u |->
         CASE u.type = "none" -> u
           [] u.type = "undefined" -> b
           [] RSign(k) = 0 -> NoUnc
           [] u.type = "lognormal" -> [u EXCEPT !.mean = RAbs(a2), !.neg = NegFlag(a2)]
           [] u.type = "normal" -> [u EXCEPT !.mean = a2, !.var = sq(@), !.varp = sq(@)]
           [] u.type = "triangular" -> [b EXCEPT !.mode = a2]
           [] u.type = "uniform" -> b]

(* a distribution that says the same as the amount *)
Consistent(o) == LET u == o.u  a == o.a IN
    CASE u.type \in {"none", "undefined"} -> TRUE
      [] u.type = "lognormal" -> RSign(a) # 0 /\ RClose(u.mean, RAbs(a)) /\ MuOf(a, u.mu) /\ u.neg = NegFlag(a) /\ RSign(u.varp) # 0
      [] u.type = "normal" -> RClose(u.mean, a) /\ RSign(u.varp) # 0
      [] u.type = "triangular" -> RLt(u.min, u.max) /\ RLe(u.min, a) /\ RLe(a, u.max) /\ RClose(u.mode, a)
      [] u.type = "uniform" -> RLt(u.min, u.max) /\ RLe(u.min, a) /\ RLe(a, u.max)
      [] OTHER -> FALSE

(* ---- repair ------------------------------------------------------------*)
Euler == <<271801, 99990>>
(* the amount counts as midway (to the tolerance of the implementation,    *)
(* 10^-5 relative and 10^-8 absolute) surely / possibly                    *)
Off(u, a) == RAbs(RSub(a, MidOf(u)))
MidTol(u, f) == RMul(f, RAdd(<<1, 100000000>>, RMul(<<1, 100000>>, RAbs(MidOf(u)))))
SurelyMid(u, a) == RLe(Off(u, a), MidTol(u, <<9, 10>>))
SurelyOff(u, a) == RLt(MidTol(u, <<11, 10>>), Off(u, a))
Ordered(u) == [u EXCEPT !.min = RMin(u.min, u.max), !.max = RMax(u.min, u.max)]
PointLike(u, a) == REq(u.min, u.max) /\ REq(u.min, a)
RepairVar(v) == IF RLt(v, ROne) THEN v ELSE IF RLe(v, Euler) THEN RLn(v) ELSE <<1, 4>>
(* uniform bounds that exclude the amount cannot be repaired *)
Repairable(o) == o.u.type = "uniform" => InBounds(o.u, o.a)
Repair(o, ped) ==
    LET u == o.u  a == o.a IN
    CASE u.type \in {"none", "undefined"} -> o
      [] u.type = "lognormal" ->
            LET v0 == RSub(u.varp, ped)  v == RepairVar(v0)
                p == IF RLt(v0, ROne) THEN u.varp ELSE RAdd(v, ped)
            IN IF RSign(a) = 0 \/ RSign(u.varp) = 0 \/ RSign(p) = 0 THEN [o EXCEPT !.u = NoUnc]
               ELSE [o EXCEPT !.u = [u EXCEPT !.mean = RAbs(a), !.neg = NegFlag(a), !.var = v, !.varp = p]]
      [] u.type = "normal" -> IF RSign(u.varp) = 0 THEN [o EXCEPT !.u = NoUnc] ELSE [o EXCEPT !.u.mean = a]
      [] u.type = "triangular" ->
            IF PointLike(u, a) \/ ~InBounds(u, a) THEN [o EXCEPT !.u = NoUnc] ELSE [o EXCEPT !.u = [Ordered(u) EXCEPT !.mode = a]]
      [] u.type = "uniform" ->
            IF PointLike(u, a) THEN [o EXCEPT !.u = NoUnc]
            ELSE IF SurelyOff(u, a) THEN [o EXCEPT !.u = [Ordered(u) EXCEPT !.type = "triangular", !.mode = a]]
            ELSE [o EXCEPT !.u = Ordered(u)]
(* o2 is a correct repair of o *)
Repaired(o, ped, o2) ==
    LET x == Repair(o, ped) IN
    /\ RSame(o2.a, o.a)
    /\ IF o.u.type = "uniform" /\ ~SurelyMid(o.u, o.a) /\ ~SurelyOff(o.u, o.a)
       THEN o2.u.type \in {"none", "uniform", "triangular"}      \* on the edge of the tolerance
       ELSE /\ x.u.type = o2.u.type /\ x.u.neg = o2.u.neg
            /\ \A k \in {"mean", "var", "varp", "min", "mode", "max"} : RSame(x.u[k], o2.u[k])
            /\ (x.u.type = "lognormal" => MuOf(o2.a, o2.u.mu))

(* ---- what is handed to sampling ----------------------------------------*)
(* [type, amt, loc, scale, min, max, neg]: the distribution in the terms of *)
(* stats_arrays (location and spread of the logarithm for lognormal)        *)
Spread(o) == RMul(o.scale, o.scale)
NoStats == [type |-> "none", amt |-> NaR, loc |-> NaR, spread |-> NaR, min |-> NaR, max |-> NaR, neg |-> "-"]
Stats(o) == LET u == o.u  s == [NoStats EXCEPT !.type = u.type, !.amt = o.a] IN
    CASE u.type \in {"none", "undefined"} -> [s EXCEPT !.loc = o.a]
      [] u.type = "lognormal" -> [s EXCEPT !.spread = u.varp, !.neg = NegFlag(o.a)]     \* loc: see StatsOK
      [] u.type = "normal" -> [s EXCEPT !.loc = o.a, !.spread = u.varp]
      [] u.type = "triangular" -> [s EXCEPT !.loc = o.a, !.min = u.min, !.max = u.max]
      [] u.type = "uniform" -> [s EXCEPT !.min = u.min, !.max = u.max]
StatsOK(o, s) == LET x == Stats(o) IN
    /\ s.type = x.type /\ RSame(s.amt, x.amt)
    /\ CASE x.type = "lognormal" -> MuOf(o.a, s.loc) /\ RClose(Spread(s), x.spread) /\ RSign(s.scale) > 0 /\ s.neg = x.neg
         [] x.type = "normal" -> RClose(s.loc, x.loc) /\ RClose(Spread(s), x.spread) /\ RSign(s.scale) > 0
         [] x.type = "triangular" -> RClose(s.loc, x.loc) /\ RClose(s.min, x.min) /\ RClose(s.max, x.max)
         [] x.type = "uniform" -> RClose(s.min, x.min) /\ RClose(s.max, x.max)
         [] OTHER -> RClose(s.loc, x.loc)
(* two hundred draws: lo and hi the extremes, llo and lhi those of ln|x|   *)
Close8(a, v) == RLe(RMul(a, a), RMul(RInt(100), v))              \* within ten standard deviations
Far4(a, v) == RLe(v, RMul(RInt(16), RMul(a, a)))                  \* at least a quarter of one
Wider(a, b) == RMax(RAbs(a), RAbs(b))
DrawsOK(o, d) == LET u == o.u  m == RLn(RAbs(o.a)) IN
    CASE u.type = "lognormal" -> /\ RSign(d.lo) = RSign(o.a) /\ RSign(d.hi) = RSign(o.a)
                                 /\ LET w == Wider(RSub(d.llo, m), RSub(d.lhi, m)) IN Close8(w, u.varp) /\ (RLt(<<1, 1000000>>, u.varp) => Far4(w, u.varp))
      [] u.type = "normal" -> LET w == Wider(RSub(d.lo, o.a), RSub(d.hi, o.a)) IN
                                 RLt(RMul(<<1, 1000000>>, RMul(o.a, o.a)), u.varp) => Close8(w, u.varp) /\ Far4(w, u.varp)
      [] u.type \in {"triangular", "uniform"} -> LET e == RMul(<<1, 1000000000>>, RAdd(RAbs(u.min), RAbs(u.max)))  r == RSub(u.max, u.min) IN
                                 /\ RLe(RSub(u.min, e), d.lo) /\ RLe(d.hi, RAdd(u.max, e))
                                 /\ (RLt(RMul(RInt(1000), e), r) => RLt(r, RMul(RInt(16), RSub(d.hi, d.lo))))
      [] OTHER -> RClose(d.lo, o.a) /\ RClose(d.hi, o.a)

(* ---- pedigree ----------------------------------------------------------*)
T6(n) == <<n, 1000000>>
Tables == [original |->
    [reliability |-> <<0, 600, 2000, 8000, 40000>>, completeness |-> <<0, 100, 600, 2000, 8000>>,
     temporal |-> <<0, 200, 2000, 8000, 40000>>, geographical |-> <<0, 25, 100, 600, 2000>>,
     technological |-> <<0, 600, 8000, 40000, 120000>>, sample |-> <<0, 98, 600, 2300, 8300>>],
   ciroth |->
    [reliability |-> <<0, 47000, 57000, 69000, 69000>>, completeness |-> <<0, 220, 380, 1500, 1500>>,
     temporal |-> <<0, 220, 2300, 7600, 16000>>, geographical |-> <<0, 220, 2300, 7600, 16000>>,
     technological |-> <<0, 220, 2300, 7600, 16000>>, sample |-> <<0, 0, 0, 0, 0>>]]
(* pm: function from indicator to score 1..5 *)
PedVariance(pm, version) == T6(MapThenSumSet(LAMBDA i : Tables[version][i][pm[i]], DOMAIN pm))
(* temporal score after applying a dataset d years away *)
Aged(c, d) == IF d = 0 THEN c
              ELSE CASE c = 1 -> IF d <= 3 THEN 2 ELSE IF d <= 7 THEN 3 ELSE IF d <= 12 THEN 4 ELSE 5
                     [] c = 2 -> IF d < 5 THEN 3 ELSE IF d = 5 THEN 4 ELSE 5
                     [] c = 3 -> IF d <= 5 THEN 4 ELSE 5
                     [] OTHER -> 5
=============================================================================
