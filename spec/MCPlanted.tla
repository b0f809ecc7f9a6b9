----------------------------- MODULE MCPlanted -----------------------------
(***************************************************************************)
(* Model check of Poly with large numbers, beyond what MCPoly can search:  *)
(* systems of up to MaxEq equations which have a solution because they     *)
(* were made from one.  Solve must not answer "no", and TLC's 32-bit       *)
(* integers must suffice (TLC stops with an error if they do not).         *)
(* The same systems with one equation moved by one must not be "yes" if    *)
(* they determine their symbols by themselves.                             *)
(***************************************************************************)
EXTENDS Poly, TLC
CONSTANTS MaxEq, Values
X == PVar(3)
Y == PVar(4)
Exprs == {X, Y, PAdd(X, Y), PScale(2, X), PAdd(PScale(2, X), PScale(3, Y)), PMul(X, Y), PMul(X, X), PAdd(X, PConst(1)),
          PSub(PMul(X, X), Y), PAdd(PMul(X, X), PMul(Y, Y)), PScale(7, PMul(X, Y)), PAdd(PMul(X, PMul(X, Y)), Y), PMul(Y, PMul(Y, Y))}
\* beyond TLC's integers, but decided
ASSUME Solve({PSub(X, PConst(99960)), PSub(PMul(X, X), PConst(120))}) = "no"
ASSUME Solve({PSub(PScale(2, X), PConst(199920)), PSub(PMul(X, PMul(X, X)), PConst(120)), PSub(Y, PConst(1))}) = "no"
VARIABLES at, used, sys, ans
vars == <<at, used, sys, ans>>
At(e) == PEval(e, [i \in Vars |-> CASE i = 3 -> at[1] [] i = 4 -> at[2] [] OTHER -> 0])
Size(e) == MayPut(e, 3, PConst(at[1])) /\ MayPut(e, 4, PConst(at[2])) /\ (PVars(e) = {3, 4} => Max({Abs(at[1]), Abs(at[2])}) <= 1000)
Init == at \in Values \X Values /\ used = {} /\ sys = {} /\ ans = "yes"
Next == /\ Cardinality(used) < MaxEq
        /\ \E e \in Exprs : /\ e \notin used /\ Size(e)
                            /\ used' = used \cup {e}
                            /\ sys' = sys \cup {PSub(e, PConst(At(e)))}
                            /\ ans' = Solve(sys')
        /\ UNCHANGED at
Spec == Init /\ [][Next]_vars
Solvable == ans # "no"
\* X and Y are given, so another value of an expression contradicts them
Off == {X, Y} \subseteq used =>
       \A e \in Exprs \ {X, Y} : Size(e) => Solve({PSub(X, PConst(at[1])), PSub(Y, PConst(at[2])), PSub(e, PConst(At(e) + 1))}) # "yes"
=============================================================================
