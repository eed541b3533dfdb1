----------------------------- MODULE Extraction -----------------------------
(* S11: what is extracted from a dataset file.  A file's dataset            *)
(*   [file, id, parent, name, location, type, level, start, end, scenario,  *)
(*    access, author, entry, classes, exchanges, parameters]                *)
(* uses the codes of the ecospold 2 format; optional text that is absent or *)
(* empty is "", an optional part is a sequence of none or one, numbers are  *)
(* rationals.                                                               *)
EXTENDS Rat, Sequences, FiniteSets

Activity(c) == CASE c = "0" -> "transforming activity" [] c = "1" -> "market activity" [] c = "2" -> "IO activity" [] c = "3" -> "residual activity" [] c = "4" -> "production mix"
                 [] c = "5" -> "import activity" [] c = "6" -> "supply mix" [] c = "7" -> "export activity" [] c = "8" -> "re-export activity" [] c = "9" -> "correction activity" [] c = "10" -> "market group"
Level(c) == CASE c \in {"", "0"} -> "undefined" [] c = "1" -> "new" [] c = "2" -> "modern" [] c = "3" -> "current" [] c = "4" -> "old" [] c = "5" -> "outdated"
Access(c) == CASE c = "0" -> "public" [] c = "1" -> "licensees" [] c = "2" -> "results only" [] c = "3" -> "restricted"
Group(g) == CASE g = <<"inputGroup", "1">> -> "materials/fuels" [] g = <<"inputGroup", "2">> -> "electricity/heat" [] g = <<"inputGroup", "3">> -> "services" [] g = <<"inputGroup", "4">> -> "from environment" [] g = <<"inputGroup", "5">> -> "from technosphere"
              [] g = <<"outputGroup", "0">> -> "reference product" [] g = <<"outputGroup", "2">> -> "byproduct" [] g = <<"outputGroup", "3">> -> "material for treatment" [] g = <<"outputGroup", "4">> -> "to environment" [] g = <<"outputGroup", "5">> -> "stock addition"
Class(v) == CASE v = "allocatable product" -> v [] v = "Waste" -> "waste" [] v = "Recyclable" -> "recyclable"
Field(k) == CASE k = "minValue" -> "minimum" [] k = "maxValue" -> "maximum" [] k = "meanValue" -> "mean" [] k \in {"mostLikelyValue", "mostFrequentValue"} -> "mode"
              [] k = "varianceWithPedigreeUncertainty" -> "variance with pedigree uncertainty" [] k = "standardDeviation95" -> "standard deviation 95%" [] OTHER -> k
DefaultPedigree == <<5, 5, 5, 5, 5>>

Environmental(t) == t \in {"from environment", "to environment"}
Produces(t) == t \in {"reference product", "byproduct"}

(* ---- the relation between a part of the file and what is extracted ------*)
UncSame(u, x) ==
    /\ x.type = u.type
    /\ Len(x.values) = Len(u.values)
    /\ \A i \in 1..Len(u.values) : \E j \in 1..Len(x.values) : x.values[j][1] = Field(u.values[i][1]) /\ REq(x.values[j][2], u.values[i][2])
    /\ x.ped = IF u.ped = <<>> /\ u.type \in {"lognormal", "normal"} THEN DefaultPedigree ELSE u.ped
OptUnc(u, x) == Len(u) = Len(x) /\ (u # <<>> => UncSame(u[1], x[1]))
Unit(p) == IF p.unit = "" THEN "dimensionless" ELSE p.unit
PartSame(p, x) == x.id = p.id /\ x.name = p.name /\ x.unit = Unit(p) /\ REq(x.amount, p.amount) /\ x.var = p.var /\ x.formula = p.formula /\ OptUnc(p.unc, x.unc)
AllSame(ps, xs) == Len(ps) = Len(xs) /\ \A i \in 1..Len(ps) : PartSame(ps[i], xs[i])
PvSame(e, x) == Len(x) = 1 /\ REq(x[1].amount, e.pv) /\ x[1].var = e.pvvar /\ x[1].formula = e.pvformula /\ OptUnc(e.pvunc, x[1].unc)
ByProduct(e) == SelectSeq(e.classes, LAMBDA c : c[1] = "By-product classification")
Conditional(dstype, e) == e.link # "" /\ dstype = "market activity" /\ Group(e.group) = "byproduct" /\ RSign(e.amount) < 0

ExchangeFails(d, e, x) ==
    LET t == Group(e.group)  ok(n, b) == IF b THEN {} ELSE {n} IN
    ok("Flow", x.id = e.id /\ x.tag = e.tag /\ x.name = e.name /\ x.unit = e.unit /\ REq(x.amount, e.amount)) \cup ok("Type", x.type = t) \cup
    ok("Link", x.link = e.link) \cup ok("Classification", x.class = IF ByProduct(e) = <<>> THEN "" ELSE Class(ByProduct(e)[1][2])) \cup
    ok("Formula", x.var = e.var /\ x.formula = e.formula) \cup ok("Properties", AllSame(e.props, x.props)) \cup
    ok("Compartment", x.comp = IF Environmental(t) THEN e.comp ELSE <<"", "">>) \cup
    ok("Volume", IF Produces(t) THEN PvSame(e, x.pv) ELSE x.pv = <<>>) \cup ok("Uncertainty", OptUnc(e.unc, x.unc)) \cup
    ok("Conditional", x.cond = IF Environmental(t) THEN "-" ELSE IF Conditional(Activity(d.type), e) THEN "T" ELSE "F")
Isic(d) == LET q == SelectSeq(d.classes, LAMBDA c : c[3]) IN IF q = <<>> THEN "" ELSE q[1][2]
DatasetFails(d, x) ==
    LET ok(n, b) == IF b THEN {} ELSE {n} IN
    ok("Identity", x.file = d.file /\ x.id = d.id /\ x.parent = d.parent /\ x.name = d.name /\ x.location = d.location) \cup ok("Kind", x.type = Activity(d.type) /\ x.level = Level(d.level)) \cup
    ok("Dates", x.start = d.start /\ x.end = d.end) \cup ok("Meta", x.scenario = d.scenario /\ x.access = Access(d.access) /\ x.author = d.author /\ x.entry = d.entry /\ x.isic = Isic(d)) \cup
    ok("Parameters", AllSame(d.parameters, x.parameters)) \cup ok("Exchanges", Len(x.exchanges) = Len(d.exchanges)) \cup
    IF Len(x.exchanges) = Len(d.exchanges) THEN UNION {ExchangeFails(d, d.exchanges[i], x.exchanges[i]) : i \in 1..Len(d.exchanges)} ELSE {}

(* Datasets of one file keep their order; files come in any order.          *)
OfFile(xs, f) == SelectSeq(xs, LAMBDA x : x.file = f)
Files(ds) == {ds[i].file : i \in 1..Len(ds)}
DirectoryFails(ds, xs) ==
    (IF Len(xs) = Len(ds) /\ \A f \in Files(ds) : Len(OfFile(xs, f)) = Len(OfFile(ds, f)) THEN
        UNION {LET a == OfFile(ds, f)  b == OfFile(xs, f) IN UNION {DatasetFails(a[i], b[i]) : i \in 1..Len(a)} : f \in Files(ds)}
     ELSE {"ExactlyTheDatasets"})
=============================================================================
