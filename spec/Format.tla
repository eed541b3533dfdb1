------------------------------- MODULE Format -------------------------------
(* The internal data format (docs/data_format.rst) as a predicate over     *)
(* tagged values  [t, s, l, d]:  t in "s" text, "f" float, "i" integer,    *)
(* "b" boolean, "n" nothing, "l" list, "d" dictionary, "o" anything else;  *)
(* s the text, l the elements, d the fields as pairs <<key, value>>.       *)
(* And what validating a directory has to report.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Enums == [access |-> {"public", "licensees", "results only", "restricted"},
    kind |-> {"transforming activity", "market activity", "market group", "IO activity", "residual activity", "production mix", "import activity",
              "supply mix", "export activity", "re-export activity", "correction activity"},
    method |-> {"combined production with byproduct", "combined production without byproduct", "constrained market", "economic allocation", "no allocation",
                "recycling activity", "true value allocation", "waste treatment"},
    class |-> {"allocatable product", "waste", "recyclable"},
    level |-> {"undefined", "new", "modern", "current", "old", "outdated"},
    env |-> {"from environment", "to environment"},
    flow |-> {"from technosphere", "reference product", "byproduct", "dropped product"},
    tagE |-> {"elementaryExchange"}, tagI |-> {"intermediateExchange"},
    lognormal |-> {"lognormal"}, normal |-> {"normal"}, uniform |-> {"uniform"}, triangular |-> {"triangular"}, binomial |-> {"binomial"}, beta |-> {"beta"},
    gamma |-> {"gamma"}, undefined |-> {"undefined"}]
Lists == [exchanges |-> "exchange", parameters |-> "parameter", properties |-> "property"]
(* a choice between dictionaries *)
Variants == [exchange |-> {"elementary", "activity"},
            uncertainty |-> {"u lognormal", "u normal", "u uniform", "u triangular", "u binomial", "u beta", "u gamma", "u undefined"}]
None == <<>>
Fl(keys) == [k \in keys |-> "float"]
St(keys) == [k \in keys |-> "str"]
Given == ("formula" :> "str") @@ ("uncertainty" :> "uncertainty") @@ ("variable" :> "str")
Named == ("amount" :> "float") @@ St({"id", "name", "unit"})
U(type, keys) == [req |-> ("type" :> type) @@ ("pedigree matrix" :> "pedigree") @@ Fl(keys), opt |-> None]
Table(k) ==
    CASE k = "dataset" -> [req |-> ("exchanges" :> "exchanges") @@ ("parameters" :> "parameters") @@ ("access restricted" :> "access") @@ ("parent" :> "text or nothing") @@
                                   ("technology level" :> "level") @@ ("type" :> "kind") @@
                                   St({"economic scenario", "end date", "filepath", "id", "location", "name", "start date", "dataset author", "data entry", "ISIC classification"}),
                           opt |-> ("code" :> "str") @@ ("allocation method" :> "method") @@ ("reference product" :> "str") @@ ("suppliers" :> "any list")]
      [] k = "elementary" -> [req |-> Named @@ St({"compartment", "subcompartment"}) @@ ("tag" :> "tagE") @@ ("type" :> "env"), opt |-> Given @@ ("properties" :> "properties")]
      [] k = "activity" -> [req |-> Named @@ ("tag" :> "tagI") @@ ("type" :> "flow"),
                            opt |-> Given @@ ("properties" :> "properties") @@ ("activity link" :> "str") @@ ("byproduct classification" :> "class") @@
                                    ("conditional exchange" :> "bool") @@ ("production volume" :> "volume")]
      [] k = "parameter" -> [req |-> None, opt |-> Named @@ Given]
      [] k = "property" -> [req |-> Named, opt |-> Given]
      [] k = "volume" -> [req |-> Fl({"amount"}), opt |-> Given @@ Fl({"subtracted activity link volume"})]
      [] k = "u lognormal" -> [U("lognormal", {"mean", "variance with pedigree uncertainty"}) EXCEPT !.opt = Fl({"mu", "variance"})]
      [] k = "u normal" -> [U("normal", {"mean", "variance with pedigree uncertainty"}) EXCEPT !.opt = Fl({"variance"})]
      [] k = "u uniform" -> U("uniform", {"minimum", "maximum"})
      [] k = "u triangular" -> U("triangular", {"minimum", "maximum", "mode"})
      [] k = "u beta" -> U("beta", {"minimum", "maximum", "mode"})
      [] k = "u binomial" -> U("binomial", {"n", "p"})
      [] k = "u gamma" -> U("gamma", {"scale", "shape"})
      [] k = "u undefined" -> U("undefined", {"minimum", "maximum", "standard deviation 95%"})
Tables == {"dataset", "elementary", "activity", "parameter", "property", "volume"} \cup Variants["uncertainty"]
Scores == {"reliability", "completeness", "temporal correlation", "geographical correlation", "further technology correlation"}

Keys(v) == {v.d[i][1] : i \in 1..Len(v.d)}
RECURSIVE Valid(_, _)
Fields(v, f) == \A i \in 1..Len(v.d) : v.d[i][1] \in DOMAIN f => Valid(f[v.d[i][1]], v.d[i][2])
Valid(k, v) ==
    CASE k = "str" -> v.t = "s"
      [] k = "float" -> v.t = "f"
      [] k = "bool" -> v.t = "b"
      [] k = "any list" -> v.t = "l"
      [] k = "text or nothing" -> v.t \in {"s", "n"}
      [] k = "pedigree" -> v.t = "d" /\ (v.d = <<>> \/ (Keys(v) = Scores /\ \A i \in 1..Len(v.d) : v.d[i][2].t = "i"))
      [] k \in DOMAIN Enums -> v.t = "s" /\ v.s \in Enums[k]
      [] k \in DOMAIN Lists -> v.t = "l" /\ \A i \in 1..Len(v.l) : Valid(Lists[k], v.l[i])
      [] k \in DOMAIN Variants -> \E x \in Variants[k] : Valid(x, v)
      [] OTHER -> LET T == Table(k) IN v.t = "d" /\ DOMAIN T.req \subseteq Keys(v) /\ Keys(v) \subseteq DOMAIN T.req \cup DOMAIN T.opt /\ Fields(v, T.req) /\ Fields(v, T.opt)
ValidDataset(v) == Valid("dataset", v)

(* ---- one dataset of every kind of field -------------------------------- *)
Text(s) == [t |-> "s", s |-> s, l |-> <<>>, d |-> <<>>]
Leaf(t) == [t |-> t, s |-> "", l |-> <<>>, d |-> <<>>]
List(q) == [t |-> "l", s |-> "", l |-> q, d |-> <<>>]
Dict(q) == [t |-> "d", s |-> "", l |-> <<>>, d |-> q]
=============================================================================
