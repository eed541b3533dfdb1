----------------------------- MODULE CommandLine ----------------------------
(* S13: what a command line asks for.  A line is a sequence of words; the  *)
(* words that start with a dash are options, the others are positions.     *)
(* (docs/cli.rst and the usage text of ocelot_cli)                         *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
Options == {"--noshow", "--save=3", "--follow=x.spold", "--list", "-l", "-h", "--help", "--version", "--bogus", "-z"}
IsOption(w) == w \in Options
Positions(line) == SelectSeq(line, LAMBDA w : ~IsOption(w))
Opts(line) == {line[i] : i \in {i \in 1..Len(line) : IsOption(line[i])}}
Repeats(line) == \E i, j \in 1..Len(line) : i # j /\ line[i] = line[j] /\ IsOption(line[i])
(* repeated options are not claimed, nor what goes first when help, the    *)
(* version and unknown options are mixed                                   *)
Odd == {"--bogus", "-z"}
Doubtful(line) == Repeats(line) \/ Cardinality(Opts(line) \cap {"-h", "--help", "--version"}) > 1 \/ {"-l", "--list"} \subseteq Opts(line)
    \/ (Opts(line) \cap Odd # {} /\ Opts(line) \cap {"-h", "--help", "--version"} # {})
Blank == [what |-> "error", path |-> "", second |-> "", show |-> TRUE, save |-> "", follow |-> ""]
RunOptions == {"--noshow", "--save=3", "--follow=x.spold"}
Action(line) ==
    LET p == Positions(line)  o == Opts(line)  n == Len(p) IN
    CASE o \cap {"-h", "--help"} # {} -> [Blank EXCEPT !.what = "help"]
      [] "--version" \in o -> [Blank EXCEPT !.what = "version"]
      [] n \in {2, 3} /\ p[1] = "run" /\ o \subseteq RunOptions ->
            [what |-> "run", path |-> p[2], second |-> IF n = 3 THEN p[3] ELSE "", show |-> "--noshow" \notin o,
             save |-> IF "--save=3" \in o THEN "3" ELSE "", follow |-> IF "--follow=x.spold" \in o THEN "x.spold" ELSE ""]
      [] n = 2 /\ p[1] = "validate" /\ o = {} -> [Blank EXCEPT !.what = "validate", !.path = p[2]]
      [] n \in {2, 3} /\ p[1] = "xsd" /\ o = {} -> [Blank EXCEPT !.what = "xsd", !.path = p[2], !.second = IF n = 3 THEN p[3] ELSE "default"]
      [] p = <<"cleanup">> /\ o = {} -> [Blank EXCEPT !.what = "cleanup"]
      [] n = 0 /\ o \in {{"-l"}, {"--list"}} -> [Blank EXCEPT !.what = "list"]
      [] OTHER -> Blank
=============================================================================
