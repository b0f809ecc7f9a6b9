------------------------------- MODULE MCPoly -------------------------------
(***************************************************************************)
(* Model check of Poly: on every system of up to MaxEq equations of a      *)
(* small family, the elimination procedure Solve agrees with a direct      *)
(* search for solutions: "yes" only if the box contains a solution (the    *)
(* family is small enough for that), "no" only if it contains none.        *)
(* One state per system; TLC explores all of them.                         *)
(***************************************************************************)
EXTENDS Poly, TLC
CONSTANTS MaxEq, Shapes
X == PVar(3)
Y == PVar(4)
Z == PVar(5)
Exprs == {X, Y, Z, PAdd(X, Y), PSub(X, Y), PScale(2, X), PAdd(PScale(2, X), PScale(3, Y)),
          PMul(X, Y), PMul(X, X), PAdd(PMul(X, Y), Z), PAdd(X, PConst(1)), PAdd(PScale(2, Y), PConst(1)),
          PSub(PMul(X, X), Y), PScale(3, Z), PAdd(PMul(X, X), PMul(Y, Y)), PSub(PMul(X, PMul(X, X)), Y),
          PAdd(PMul(PMul(X, Y), Z), X), PAdd(PMul(X, X), PAdd(PScale(2, Y), Z))}
Eqs == {PSub(e, PConst(n)) : e \in Exprs, n \in Shapes}

VARIABLES sys, ans
Init == sys = {} /\ ans = "yes"
Next == /\ Cardinality(sys) < MaxEq
        /\ \E e \in Eqs : /\ e \notin sys
                          /\ sys' = sys \cup {e}
                          /\ ans' = Solve(sys')
Spec == Init /\ [][Next]_<<sys, ans>>

B == -6..6
Brute == \E x, y, z \in B :
            LET a == [i \in Vars |-> CASE i = 3 -> x [] i = 4 -> y [] i = 5 -> z [] OTHER -> 0]
            IN \A p \in sys : PEval(p, a) = 0
Assign(x, y, z) == [i \in Vars |-> CASE i = 3 -> x [] i = 4 -> y [] i = 5 -> z [] OTHER -> 0]
Solves(x, y, z) == \A p \in sys : PEval(p, Assign(x, y, z)) = 0
Sound == ans = "no" => ~Brute
\* A solution in the box is found unless three variables stay entangled.
Precise == Brute => ans = "yes" \/ Cardinality(UNION {PVars(p) : p \in sys}) = 3
\* "yes" comes with a solution; in this family it leaves B only when a free
\* linear variable absorbs a larger value.
YesHasWitness ==
    ans = "yes" => \/ Brute
                   \/ \E x, y \in -9..9, z \in -70..70 : Solves(x, y, z) \/ Solves(x, z, y) \/ Solves(z, x, y)
\* Adding an equation never turns an unsolvable system into a solvable one.
MonotoneYes == [][ans' = "yes" => ans # "no"]_<<sys, ans>>
=============================================================================
