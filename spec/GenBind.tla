------------------------------- MODULE GenBind ------------------------------
(***************************************************************************)
(* Every signature of up to MaxParams parameters (positional-only, plain,  *)
(* keyword-only; with and without default) and every form of call: any     *)
(* number of positional arguments, any set of keywords (one of them        *)
(* unknown), with all values conforming or exactly one which does not.     *)
(* Kind: plain functions, or the methods of a decorated class.             *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS MinParams, MaxParams, Kind, Every
Names == <<"x", "y", "z">>
Rank(k) == CASE k = "po" -> 1 [] k = "pk" -> 2 [] k = "ko" -> 3
\* a parameter: its kind and whether it has a default (none, good, bad)
Sorts == Cross(<<"po", "pk", "ko">>, <<"none", "good", "bad">>)
Legal(s) == /\ \A j \in 1..(Len(s) - 1) : Rank(s[j][1]) <= Rank(s[j + 1][1])
            /\ \A i, j \in 1..Len(s) : (i < j /\ s[i][1] # "ko" /\ s[j][1] # "ko" /\ s[i][2] # "none") => s[j][2] # "none"
            /\ Len(SelectSeq(s, LAMBDA p : p[2] = "bad")) <= 1
Sigs == Keep(Cat([n \in 1..(MaxParams - MinParams + 1) |-> Exactly(Sorts, n + MinParams - 1)]), Legal)
\* the j-th parameter wants an array of j elements
Good(j) == Arr(<<j>>)
Wrong(j) == Arr(<<j + 4>>)
Ps(s) == [j \in 1..Len(s) |-> Param(Names[j], s[j][1], <<AnnH(j)>>,
                                    CASE s[j][2] = "none" -> <<>> [] s[j][2] = "good" -> <<Good(j)>> [] s[j][2] = "bad" -> <<Wrong(j)>>)]
\* which names are given by keyword, in both orders: a subset as a sequence
RECURSIVE Subsets(_)
Subsets(s) == IF s = <<>> THEN <<<<>>>> ELSE LET r == Subsets(Tail(s)) IN r \o Map(LAMBDA t : <<Head(s)>> \o t, r)
Order(s) == IF Len(s) < 2 THEN <<s>> ELSE <<s, Reverse(s)>>
KwSets(n) == Cat(Map(Order, Subsets(SubSeq(Names, 1, n) \o <<"w">>)))
Forms(n) == Cross([j \in 1..(n + 2) |-> j - 1], KwSets(n))
Idx(name) == CASE name = "x" -> 1 [] name = "y" -> 2 [] name = "z" -> 3 [] name = "w" -> 4
Via == <<"inst", "sub", "cls">>
\* bad: which passed value is wrong (0: none; positional ones first)
Do(f, form, bad) ==
    LET np == form[1]
        c == Call(f, 1, [j \in 1..np |-> IF bad = j THEN Wrong(j) ELSE Good(j)],
                  [j \in 1..Len(form[2]) |-> [n |-> form[2][j],
                        v |-> IF bad = np + j THEN Wrong(Idx(form[2][j])) ELSE Good(Idx(form[2][j]))]])
    IN IF Kind = "func" THEN <<c, Ret(1, NoneObj)>>
       ELSE <<c @@ [via |-> Via[1 + ((np + Len(form[2])) % 3)]], Ret(1, NoneObj)>>
Variants(f, form) == Cat([b \in 1..(form[1] + Len(form[2]) + 1) |-> Do(f, form, b - 1)])
Mks == <<Mk("A", Dims(<<I(1)>>)), Mk("A", Dims(<<I(2)>>)), Mk("A", Dims(<<I(3)>>))>>
Define(s) == IF Kind = "func" THEN <<DefF(Ps(s), <<>>)>>
             ELSE <<[op |-> "def", cls |-> TRUE, ms |-> Map(LAMBDA k : Member(k, Ps(s), <<>>), <<"inst", "cm", "sm">>)]>>
Fns == IF Kind = "func" THEN <<1>> ELSE <<1, 2, 3>>
PlanOf(s, k) == Plan(Mks \o Define(s) \o Cat(Map(LAMBDA c : Variants(c[1], c[2]),
                                                  Sieve(Cross(Fns, Forms(Len(s))), Every, 1 + (k % Every)))))
ASSUME Write([k \in 1..Len(Sigs) |-> PlanOf(Sigs[k], k)])
=============================================================================
