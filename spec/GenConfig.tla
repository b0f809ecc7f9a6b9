------------------------------ MODULE GenConfig -----------------------------
(***************************************************************************)
(* Client behaviours for Config.  Part "subsets": a file in every subset   *)
(* of at most MaxFiles places, each with settings which tell it from the   *)
(* others, for every number of packages and state of ASTARC; "options":    *)
(* every assignment of values to a subset of the options, in each kind of  *)
(* file; "kinds": unrelated and empty files, directories and dangling      *)
(* links before others; "looks": the ways of writing the same settings;    *)
(* "warn": what decides whether the import warns.                          *)
(***************************************************************************)
EXTENDS GenLib, Config
CONSTANTS Part, MaxFiles
Wr(p, c) == [op |-> "write", p |-> p, c |-> c]
Inits(n) == [op |-> "inits", n |-> n]
Astarc(v) == [op |-> "astarc", v |-> v]
Boot0 == [op |-> "boot", env |-> "unset"]
Bit(n, k) == (n \div (2 ^ k)) % 2 = 1
Five(n) == <<Bit(n, 0), Bit(n, 1), Bit(n, 2), Bit(n, 3), Bit(n, 4)>>
\* settings number n of 31 as explicit values
Full(n) == [k |-> "master", s |-> [j \in 1..5 |-> [o |-> Options[j], v |-> Bit(n, j - 1)]]]
\* place j has the settings of number 2 j + 1 (on = yes, so that the others can be observed)
Own(j) == Full(2 * j + 1)
NP == Len(AllPlaces)
\* the subsets of 1..n with at most m members, as sorted sequences
RECURSIVE Subsets(_, _)
Subsets(n, m) == IF n = 0 \/ m = 0 THEN <<<<>>>>
                 ELSE Subsets(n - 1, m) \o Map(LAMBDA s : Append(s, n), Subsets(n - 1, m - 1))
Files(s) == Map(LAMBDA j : Wr(AllPlaces[j], Own(j)), s)
Envs == Cross(<<0, 1, 2, 3>>, <<"unset", "missing", "file">>)
Needs(s, e) == /\ e[2] # "file" => \A k \in 1..Len(s) : AllPlaces[s[k]] # "env"
SubsetPlans == Map(LAMBDA c : Plan(Files(c[1]) \o <<Inits(c[2][1]), Astarc(c[2][2]), Boot0>>),
                   Keep(Cross(Subsets(NP, MaxFiles), Envs), LAMBDA c : Needs(c[1], c[2])))

RECURSIVE Assigns(_)
Assigns(j) == IF j = 0 THEN <<<<>>>>
              ELSE Cat(Map(LAMBDA s : <<s, Append(s, [o |-> Options[j], v |-> TRUE]), Append(s, [o |-> Options[j], v |-> FALSE])>>,
                           Assigns(j - 1)))
OptionPlaces == <<"cwd/.astarc", "cwd/pyproject.toml", "cwd/setup.cfg", "env">>
\* on, print-passes and every value of ASTA_TYPECHECK: when the import warns.
WarnPlans == Map(LAMBDA c : Plan(<<Wr(c[1][1], [k |-> "master", s |-> SelectSeq(c[2], LAMBDA x : x.o \in {"on", "print-passes"})]),
                                   [op |-> "boot", env |-> c[1][2]]>>),
                 Cross(Cross(OptionPlaces, <<"unset", "1", "0", "", "yes">>),
                       Keep(Assigns(3), LAMBDA s : \A j \in 1..Len(s) : s[j].o # "raise-errors")))
OptionPlans == Map(LAMBDA c : Plan(<<Wr(c[1], [k |-> "master", s |-> c[2]]), Astarc("file"), Boot0>>),
                   Cross(OptionPlaces, Keep(Assigns(5), LAMBDA s : TRUE)))

KindPlans ==
    Cat(Map(LAMBDA c : <<
        Plan(<<Wr(c[1], [k |-> c[2]]), Wr(c[3], Own(3)), Wr("home/.astarc", Own(5)), Boot0, Wr(c[1], Own(2)), Boot0,
               Wr(c[1], [k |-> "none"]), Boot0, Wr(c[3], [k |-> "none"]), Boot0>>)>>,
        Map(LAMBDA x : <<x[1][1], x[1][2], x[2]>>,
            Keep(Cross(Cross(Local, <<"unrelated", "empty", "none", "dir", "dangling">>), Local \o <<"p1/astarc", "etc">>),
                 LAMBDA x : x[1][1] # x[2]
                            /\ (x[1][2] = "unrelated" => x[1][1] \in {"cwd/pyproject.toml", "cwd/setup.cfg"})
                            /\ (x[1][2] = "empty" => x[1][1] \in {"cwd/astarc", "cwd/.astarc"})))))
\* each way of writing a file, in each place, before another file
LookPlans == Map(LAMBDA c : Plan(<<Wr(c[1], [k |-> "master", s |-> Own(2).s, look |-> <<c[2]>>]), Wr("etc", Own(5)), Astarc(IF c[1] = "env" THEN "file" ELSE "unset"), Boot0>>),
                 Cross(AllPlaces, <<"bom", "upper", "space", "before", "after", "comment", "link">>))
ASSUME Write(CASE Part = "subsets" -> SubsetPlans [] Part = "options" -> OptionPlans [] Part = "warn" -> WarnPlans [] Part = "looks" -> LookPlans [] OTHER -> KindPlans)
=============================================================================
