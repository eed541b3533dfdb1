------------------------------ MODULE MC_Format -----------------------------
(* Design check for S12: a dataset with every field the format knows, one  *)
(* part of it damaged; whether the format still admits it is decided by    *)
(* the damaged part alone.  And CommandLine (S13).                         *)
EXTENDS Format, CommandLine, SequencesExt, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
CLI == IOEnv.PROP = "S13"

RECURSIVE Make(_, _)
Make(k, u) ==
    CASE k = "str" -> Text("x") [] k = "float" -> Leaf("f") [] k = "bool" -> Leaf("b")
      [] k = "any list" -> List(<<>>) [] k = "text or nothing" -> Leaf("n")
      [] k = "pedigree" -> Dict([i \in 1..5 |-> <<SetToSeq(Scores)[i], Leaf("i")>>])
      [] k \in DOMAIN Enums -> Text(CHOOSE s \in Enums[k] : TRUE)
      [] k = "exchanges" -> List(<<Make("elementary", u), Make("activity", u)>>)
      [] k \in DOMAIN Lists -> List(<<Make(Lists[k], u)>>)
      [] k = "uncertainty" -> Make(u, u)
      [] OTHER -> LET T == Table(k)  f == T.req @@ T.opt  q == SetToSeq(DOMAIN f) IN Dict([i \in 1..Len(q) |-> <<q[i], Make(f[q[i]], u)>>])
Kids(v) == IF v.t = "l" THEN v.l ELSE [i \in 1..Len(v.d) |-> v.d[i][2]]
RECURSIVE Paths(_)
Paths(v) == {<<>>} \cup (IF v.t \in {"l", "d"} THEN UNION {{<<i>> \o p : p \in Paths(Kids(v)[i])} : i \in 1..Len(Kids(v))} ELSE {})
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v ELSE At(Kids(v)[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(v, p, w) == IF p = <<>> THEN w
    ELSE IF v.t = "l" THEN [v EXCEPT !.l = [v.l EXCEPT ![Head(p)] = Put(@, Tail(p), w)]]
    ELSE [v EXCEPT !.d = [v.d EXCEPT ![Head(p)] = <<@[1], Put(@[2], Tail(p), w)>>]]
(* the kind of value expected at p *)
Sub(k, v, i) == CASE v.t = "d" /\ k = "pedigree" -> "score"
                  [] v.t = "d" -> LET T == Table(k) IN (T.req @@ T.opt)[v.d[i][1]]
                  [] v.t = "l" -> IF k = "exchanges" THEN (IF i = 1 THEN "elementary" ELSE "activity") ELSE Lists[k]
RECURSIVE KindAt(_, _, _, _)
KindAt(k, v, p, u) == LET kk == IF k = "uncertainty" THEN u ELSE k IN IF p = <<>> THEN kk ELSE KindAt(Sub(kk, v, Head(p)), Kids(v)[Head(p)], Tail(p), u)

Types == {"s", "f", "n", "b", "i", "l", "d"}
NewLeaf(t) == CASE t = "s" -> Text("no such text") [] t = "d" -> Dict(<<<<"no such key", Text("x")>>>>) [] t = "l" -> List(<<Leaf("o")>>) [] OTHER -> Leaf(t)
Words == UNION {Enums[k] : k \in DOMAIN Enums}
Hows == {[h |-> "set", t |-> t] : t \in Types} \cup {[h |-> "drop", t |-> ""], [h |-> "add", t |-> ""], [h |-> "empty", t |-> ""], [h |-> "none", t |-> ""]} \cup {[h |-> "word", t |-> w] : w \in Words}
Applies(v, p, how) == LET x == At(v, p) IN
    CASE how.h = "set" -> ~(x.t = "i" /\ how.t = "b")
      [] how.h = "drop" -> p # <<>> /\ At(v, Front(p)).t = "d" /\ ~(x.t = "i")
      [] how.h = "add" -> x.t = "d"
      [] how.h = "empty" -> x.t \in {"d", "l"} /\ Kids(x) # <<>>
      [] how.h = "none" -> p = <<>>
      [] how.h = "word" -> x.t = "s" /\ x.s \in Words /\ x.s # how.t
Hurt(v, p, how) == LET x == At(v, p) IN
    CASE how.h = "set" -> Put(v, p, NewLeaf(how.t))
      [] how.h = "drop" -> LET y == At(v, Front(p)) IN Put(v, Front(p), [y EXCEPT !.d = RemoveAt(@, Last(p))])
      [] how.h = "add" -> Put(v, p, [x EXCEPT !.d = Append(@, <<"no such key", Text("x")>>)])
      [] how.h = "empty" -> Put(v, p, [x EXCEPT !.l = <<>>, !.d = <<>>])
      [] how.h = "none" -> v
      [] how.h = "word" -> Put(v, p, Text(how.t))
Plain == [str |-> {"s"}, float |-> {"f"}, bool |-> {"b"}, score |-> {"i"}]
Local(k, v, p, how, u) == LET kd == KindAt(k, v, p, u) IN
    CASE how.h = "none" -> TRUE
      [] how.h = "set" -> CASE kd \in DOMAIN Plain -> how.t \in Plain[kd] [] kd = "any list" -> how.t = "l" [] kd = "text or nothing" -> how.t \in {"s", "n"} [] OTHER -> FALSE
      [] how.h = "word" -> how.t \in Enums[kd] \/ (kd = "normal" /\ how.t = "lognormal") \/ {kd, how.t} = {"triangular", "beta"}
      [] how.h = "drop" -> LET up == KindAt(k, v, Front(p), u) IN At(v, Front(p)).d[Last(p)][1] \in DOMAIN Table(up).opt
      [] how.h = "add" -> FALSE
      [] how.h = "empty" -> kd \in DOMAIN Lists \/ kd = "pedigree" \/ kd = "parameter"
Us == Variants["uncertainty"]
Bases == [u \in Us |-> Make("dataset", u)]
(* quick: words elsewhere than in the distributions for one base only *)
Damages == {<<u, p, how>> \in UNION {{u} \X Paths(Bases[u]) \X Hows : u \in Us} :
    Applies(Bases[u], p, how) /\ (how.h = "word" /\ ~Deep => u = "u beta" \/ "u " \o At(Bases[u], p).s = u)}

Tokens == {"run", "validate", "xsd", "cleanup", "d1", "d2", "--noshow", "--save=3", "--follow=x.spold", "--list", "-l", "-h", "--help", "--version", "--bogus", "-z"}
Longest == IF Deep THEN 4 ELSE 3
Lines == UNION {[1..n -> Tokens] : n \in 0..Longest}
Extra == {<<"run", "d1", a, b>> : a \in Tokens, b \in Tokens} \cup {<<a, "run", "d1", "d2", b>> : a \in Tokens, b \in Tokens} \cup {<<a, "xsd", b, "d2">> : a \in Tokens, b \in Tokens}
       \cup {<<"run", "d1", "--noshow", a, b>> : a \in Tokens, b \in Tokens}
CLines == {l \in Lines \cup Extra : ~Doubtful(l)}

VARIABLES u, dmg
vars == <<u, dmg>>
Init == IF CLI THEN u = "line" /\ dmg \in CLines ELSE \E x \in Damages : u = x[1] /\ dmg = <<x[2], x[3]>>
Next == UNCHANGED vars
ASSUME ndJsonSerialize(IOEnv.SCEN_OUT, IF CLI THEN SetToSeq(CLines) ELSE SetToSeq({Hurt(Bases[x[1]], x[2], x[3]) : x \in Damages}))

OnlyTheDamage == ~CLI => (ValidDataset(Hurt(Bases[u], dmg[1], dmg[2])) <=> Local("dataset", Bases[u], dmg[1], dmg[2], u))
(* every dictionary belongs to one table *)
Disjoint == ~CLI /\ dmg[1] = <<>> => \A k, m \in Tables : k # m /\ Valid(m, Make(k, u)) => {k, m} \subseteq {"parameter", "property"}
(* the command line: one action, decided by the words and not their order  *)
Total == CLI => LET a == Action(dmg) IN a.what \in {"run", "validate", "xsd", "cleanup", "list", "help", "version", "error"}
Insensitive == CLI => \A i \in 1..(Len(dmg) - 1) : IsOption(dmg[i]) \/ IsOption(dmg[i + 1]) =>
    LET swapped == [dmg EXCEPT ![i] = dmg[i + 1], ![i + 1] = dmg[i]] IN Action(swapped) = Action(dmg)
Deletes == CLI => (Action(dmg).what = "cleanup" => dmg = <<"cleanup">>)
Asked == CLI => (Action(dmg).what \in {"run", "validate", "xsd", "cleanup"} => Action(dmg).what \in {dmg[i] : i \in 1..Len(dmg)})
=============================================================================
