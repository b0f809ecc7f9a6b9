------------------------------- MODULE MCMatch ------------------------------
(***************************************************************************)
(* Model check of hint matching (Hints!Readings, IsInstance): one state    *)
(* per hint of up to MaxDims dimensions and shape of up to MaxRank sizes.  *)
(* The direct meaning: write a number of -1's for each '...', give every   *)
(* symbol a value, and compare dimension by dimension.                     *)
(***************************************************************************)
EXTENDS Hints
CONSTANTS MaxDims, MaxRank, Kind
X == PVar(3)
Y == PVar(4)
i(n) == [t |-> "i", v |-> n]
w == [t |-> "w"]
e == [t |-> "e"]
x(p) == [t |-> "x", den |-> 1, fl |-> FALSE, p |-> p]
Alphabet == CASE Kind = "plain" -> {i(0), i(1), i(2), w, e, [t |-> "n"]}
              [] Kind = "sym" -> {i(2), w, e, x(X), x(Y), x(PAdd(X, PConst(1))), x(PAdd(X, Y)), x(PSub(X, Y))}
              [] Kind = "hard" -> {e, x(X), x(PScale(2, X)), x(PMul(X, Y)), x(PMul(X, X)), x(PAdd(PScale(2, X), PScale(3, Y)))}
Sizes == IF Kind = "plain" THEN 0..2 ELSE 0..4
VARIABLES ds, sh
Init == /\ \E n \in 0..MaxDims : ds \in [1..n -> Alphabet]
        /\ \E n \in 0..MaxRank : sh \in [1..n -> Sizes]
Next == FALSE /\ UNCHANGED <<ds, sh>>
Spec == Init /\ [][Next]_<<ds, sh>>

RECURSIVE Spelled(_, _)
\* the lists of n dimensions which ds stands for
Spelled(d, n) ==
    IF n < 0 THEN {} ELSE IF d = <<>> THEN IF n = 0 THEN {<<>>} ELSE {}
    ELSE IF Head(d).t = "e" THEN UNION {{[j \in 1..k |-> w] \o r : r \in Spelled(Tail(d), n - k)} : k \in 0..n}
    ELSE {<<Head(d)>> \o r : r \in Spelled(Tail(d), n - 1)}
Values == -6..8
Fits(d, n, a) == CASE d.t = "i" -> n = d.v
                   [] d.t = "w" -> n > 0
                   [] d.t = "x" -> PEval(d.p, [k \in Vars |-> CASE k = 3 -> a[1] [] k = 4 -> a[2] [] OTHER -> 0]) = n
                   [] OTHER -> FALSE
Direct(d, s) == \E a \in (IF Kind = "plain" THEN {<<0, 0>>} ELSE Values \X Values) :
                   \E r \in Spelled(d, Len(s)) : \A k \in 1..Len(s) : Fits(r[k], s[k], a)
H(d) == [Bare("A") EXCEPT !.sh = [k |-> "sh", ds |-> d]]
V(s) == [t |-> "a", b |-> "A", n |-> "<f8", k |-> "f", z |-> 8, sh |-> s, tag |-> <<>>]
Ans(d, s) == IsInstance(H(d), V(s))
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Swap(p) == FromTerms(SetToSeq({<<p[m], [m EXCEPT ![3] = m[4], ![4] = m[3]]>> : m \in DOMAIN p}))
Renamed == [j \in 1..Len(ds) |-> IF ds[j].t = "x" THEN [ds[j] EXCEPT !.p = Swap(@)] ELSE ds[j]]
Fixed == ~AdjacentEllipses(ds)

Meaning == Fixed => (Ans(ds, sh) = {TRUE} => Direct(ds, sh)) /\ (Ans(ds, sh) = {FALSE} => ~Direct(ds, sh))
\* the specification leaves an answer open only for systems without integer but with rational solutions
Decides == Fixed => Cardinality(Ans(ds, sh)) = 1 \/ (Kind # "plain" /\ ~Direct(ds, sh))
Reversal == Ans(ds, sh) = Ans(Rev(ds), Rev(sh))
Renaming == Ans(ds, sh) = Ans(Renamed, sh)
\* a size 0 is matched by no -1 and no '...'
Wilder == \A k \in 1..Len(ds) : Fixed /\ Ans(ds, sh) = {TRUE} /\ (\A j \in 1..Len(sh) : sh[j] > 0) /\ ds[k].t # "e"
              => TRUE \in Ans([ds EXCEPT ![k] = w], sh)
\* '...' stands for any number of -1: also none, also one more
Longer == \A k \in 1..Len(ds) : Fixed /\ ds[k].t = "e" =>
              /\ (Ans(SubSeq(ds, 1, k - 1) \o SubSeq(ds, k + 1, Len(ds)), sh) = {TRUE} => TRUE \in Ans(ds, sh))
              /\ (Ans(SubSeq(ds, 1, k) \o <<w>> \o SubSeq(ds, k + 1, Len(ds)), sh) = {TRUE} => TRUE \in Ans(ds, sh))
=============================================================================
